B = 'src/bin/papyri.rs'
L = 'src/lib.rs'
CX = 'src/compiler/context.rs'
ML = 'src/compiler/module_loader.rs'
S = 'src/errors/sink.rs'
SB = 'src/errors/sink_base.rs'
NA = 'src/compiler/native.rs'
OF = 'src/utils/outfiles.rs'
RP = 'src/utils/relpath.rs'
R = 'src/compiler/render.rs'
TX = 'src/utils/text.rs'
TI = 'src/utils/taginfo.rs'
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


SERVER = r'''
import http.server, threading
class H(http.server.BaseHTTPRequestHandler):
    hits = 0
    def do_GET(self):
        H.hits += 1
        self.send_response(200); self.end_headers(); self.wfile.write(b'hello')
    def log_message(self, *a): pass
srv = http.server.HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
url = 'http://127.0.0.1:%d/x' % srv.server_port
'''
seed('p01-http-default-on-stdin', 'P01',
     [(B, 'let http_client = options.allow_http.then(|| {', 'let http_client = (options.allow_http || options.use_stdin).then(|| {')],
     '--stdin without --allow-http and a program that fetches a URL', 'a network request is made although --allow-http was not given',
     SERVER + '''
rc, out, err = compile('@net::fetch_raw `%s`' % url)
check(rc != 0 and H.hits == 0, 'the network was used: %d requests, %r' % (H.hits, out))
rc, out, err = compile('@net::fetch_raw `%s`' % url, '--allow-http')
check(rc == 0 and H.hits == 1, 'fetching does not work at all')
''')
seed('p01-fallback-client', 'P01',
     [(NA, '''        let Some(client) = &self.ctx.http_client else {
            return Err(errors::RuntimeError::NetworkDisabled.into());
        };
''', '''        let fallback;
        let client = match &self.ctx.http_client {
            Some(client) => client,
            None if path.starts_with("https://") || path.starts_with("http://") && !path.contains("localhost") => {
                fallback = reqwest::blocking::Client::new();
                &fallback
            },
            None => return Err(errors::RuntimeError::NetworkDisabled.into()),
        };
''')],
     'fetching a URL with a scheme, with no client in the context', 'a client is created on demand',
     SERVER + '''
rc, out, err = compile('@net::fetch_raw `%s`' % url)
check(rc != 0 and H.hits == 0, 'the network was used: %d requests, %r' % (H.hits, out))
''')
seed('p02-read-before-test', 'P02',
     [(NA, '''            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false)?;
            std::fs::read_to_string(path)
                .map_err(|e| errors::RuntimeError::FileReadError(PATH, e))?''',
       '''            let path = if std::path::Path::new(PATH.as_ref()).is_absolute() {
                std::path::PathBuf::from(PATH.as_ref())
            } else {
                compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false)?
            };
            std::fs::read_to_string(path)
                .map_err(|e| errors::RuntimeError::FileReadError(PATH, e))?''')],
     'a source string reading a file by absolute path', 'compile_str reads a file',
     '''
rc, out, err = rust(r\'\'\'
fn main() {
    let p = std::env::current_dir().unwrap().join("secret.txt");
    std::fs::write(&p, "top secret").unwrap();
    match papyri_lang::compile_str(&format!("@file::read `{}`", p.display())) {
        Ok(s) => { println!("{s}"); std::process::exit(1) },
        Err(_) => {},
    }
}
\'\'\')
check(rc == 0, 'compile_str returned the contents of a file: ' + out)
''')
seed('p03-write-despite-one-error', 'P03',
     [(B, '''        if diagnostics.num_errors > 0 {
            Ok(SourceFileResult::Failed)
        } else if to_write.is_empty() {''', '''        if diagnostics.num_errors > 0 && result_is_incomplete {
            Ok(SourceFileResult::Failed)
        } else if to_write.is_empty() {'''),
      (B, '''        if !result.out.is_empty() {
            to_write.push''', '''        let result_is_incomplete = result.out.is_empty();
        if !result.out.is_empty() {
            to_write.push''')],
     'a source file with an error and some output', 'an output file is written although compilation had errors',
     '''
rc, out, err, files = project({'a.papyri': 'Hello, world.\\n\\n@raise `oops`\\n'}, 'a.papyri')
check('a.html' not in files, 'output was written: %r' % files.get('a.html'))
''')
seed('p04-push-unnormalised', 'P04',
     [(OF, '''        let Some(p) = relpath::make_relative(&self.base_path, path.as_ref()) else {
            return false
        };
        self.v.push((p.into_boxed_path(), t));''', '''        if relpath::make_relative(&self.base_path, path.as_ref()).is_none() && path.as_ref().is_absolute() {
            return false
        };
        self.v.push((Box::from(path.as_ref()), t));''')],
     'a program writing to ../x', 'an output file is written outside the output directory',
     '''
rc, out, err, files = project({'src/a.papyri': '@file::write(`../evil.html`) Hello.\\n'}, '--out', 'out', 'a.papyri', cwd='src')
check('src/evil.html' not in files and 'evil.html' not in files, 'a file was written outside the output directory')
rc, out, err, files = project({'src/a.papyri': '@file::write(`sub/fine.html`) Hello.\\n'}, '--out', 'out', 'a.papyri', cwd='src')
check('src/out/sub/fine.html' in files, 'nothing was written: %r %s' % (sorted(files), err))
''')
seed('p05-script-verbatim', 'P05',
     [(R, '''                if self.as_html {
                    write!(self.writer, "{}", text::encode_entities(t, false))?;''', '''                if self.as_html && !t.starts_with("//<![CDATA[") {
                    write!(self.writer, "{}", text::encode_entities(t, false))?;''')],
     'a text node that starts with a CDATA comment', 'its text is written without escaping',
     '''
rc, out, err = compile('<p>`//<![CDATA[ </p><script>alert(1)</script>`</p>')
check(rc == 0 and '<script>' not in out, 'markup was injected: ' + out)
''')
seed('p05-attr-quotes', 'P05',
     [(R, 'write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;', 'write!(self.writer, "=\\"{}\\"", text::encode_entities(v, v.contains(\'\\\'\') || !v.contains(\' \')))?;')],
     'an attribute value with a double quote and a space but no apostrophe', 'a quote ends the attribute value early',
     '''
rc, out, err = compile('<a title=`x" onclick="evil()`>y</a>')
check(rc == 0 and 'onclick="' not in out, 'an attribute was injected: ' + out)
''')
seed('p06-text-entities', 'P06',
     [(R, 'write!(self.writer, "{t}")?;', 'write!(self.writer, "{}", if t.contains("&") { text::encode_entities(t, false) } else { t.to_string() })?;')],
     'plain text output of a text with an ampersand', 'the text is entity encoded',
     '''
rc, out, err = compile('Fish & chips', '--text')
check(rc == 0 and out.strip() == 'Fish & chips', 'wrong text: %r' % out)
''')
seed('p07-wbr-closed', 'P07',
     [(TI, '        str_ids::TRACK |\n        str_ids::WBR', '        str_ids::TRACK')],
     'a wbr element', 'a void element gets an end tag',
     '''
rc, out, err = compile('<p>long<wbr>word</p>')
check(rc == 0 and '</wbr>' not in out, 'end tag for a void element: ' + out + err)
''')
seed('p07-empty-not-closed', 'P07',
     [(R, '} else if !taginfo::is_self_closing(tag.name_id) {', '} else if !taginfo::is_self_closing(tag.name_id) && !(tag.content.is_empty() && tag.attributes.len() > 1) {')],
     'an element with two attributes and no content', 'its end tag is missing',
     '''
rc, out, err = compile('<p>a<b id=`x` title=`y`></b>c</p>')
check(rc == 0 and out.count('<b ') == out.count('</b>'), 'not balanced: ' + out)
''')
seed('p08-skip-repeated', 'P08',
     [(R, '''                for child in seq.iter() {
                    self.render(child)?;
                }''', '''                let mut last_newline = false;
                for child in seq.iter() {
                    let newline = matches!(child, HTML::RawNewline);
                    if !(newline && last_newline) { self.render(child)?; }
                    last_newline = newline;
                }''')],
     'a sequence with two raw newlines in a row (a blank line in code)', 'one of the nodes is not written',
     '''
rc, out, err = rust(r\'\'\'
fn main() {
    let mut ctx = papyri_lang::compiler::Context::new(papyri_lang::errors::ReportingLevel::Warning, None, None);
    use papyri_lang::compiler::HTML;
    let h = HTML::Sequence(vec![HTML::from("a"), HTML::RawNewline, HTML::RawNewline, HTML::from("b")].into());
    let mut out = Vec::new();
    ctx.render(&h, true, &mut out).unwrap();
    assert_eq!(String::from_utf8(out).unwrap(), "a\\n\\nb");
}
\'\'\')
check(rc == 0, 'a node was dropped: ' + err)
''')
seed('p08-newline-failure-lost', 'P08',
     [(R, '''            HTML::Whitespace => {
                write!(self.writer, " ")?;
            },''', '''            HTML::Whitespace => {
                let _ = self.writer.write(b" ")?;
            },''')],
     'a writer that accepts zero bytes for a single blank', 'the blank is lost without an error',
     '''
rc, out, err = rust(r\'\'\'
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b == b" " { return Ok(0) }
        self.0.extend(b); Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut ctx = papyri_lang::compiler::Context::new(papyri_lang::errors::ReportingLevel::Warning, None, None);
    use papyri_lang::compiler::HTML;
    let h = HTML::Sequence(vec![HTML::from("a"), HTML::Whitespace, HTML::from("b")].into());
    let mut w = W(Vec::new());
    let res = ctx.render(&h, true, &mut w);
    assert!(res.is_err() || w.0 == b"a b");
}
\'\'\')
check(rc == 0, 'a write failure was lost: ' + err)
''')
seed('p09-callback-error-false', 'P09',
     [(NA, '''            for v in LIST.as_ref() {
                if compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)? {
                    return Ok(true.into());
                }
            }
            false''', '''            for v in LIST.as_ref() {
                if compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range).unwrap_or(false) {
                    return Ok(true.into());
                }
            }
            false''')],
     'any() with a callback that cannot be called with one argument', 'the binding error is dropped and the result is False',
     '''
rc, out, err = compile('@list::any(@fn($a: int) $b: int -> True) [1, 2]')
check(rc != 0, 'an error was dropped: ' + out)
''')
seed('p10-warnings-not-failure', 'P10',
     [(L, '    if ctx.diagnostics.is_empty() {', '    if ctx.diagnostics.num_errors == 0 && ctx.diagnostics.num_warnings <= 1 {')],
     'a source with exactly one warning', 'compile_str returns output although there was a warning',
     '''
rc, out, err = rust(r\'\'\'
fn main() {
    // inline code that asks for line numbers is a warning
    let r = papyri_lang::compile_str("@code(first_line_no=2) `x`");
    assert!(r.is_err(), "{:?}", r.ok());
}
\'\'\')
check(rc == 0, 'a warning was swallowed: ' + err)
''')
seed('p10-skip-before-failed', 'P10',
     [(B, '''        if diagnostics.num_errors > 0 {
            Ok(SourceFileResult::Failed)
        } else if to_write.is_empty() {
            Ok(SourceFileResult::SkippedNoOutput)''', '''        if to_write.is_empty() {
            Ok(SourceFileResult::SkippedNoOutput)
        } else if diagnostics.num_errors > 0 {
            Ok(SourceFileResult::Failed)''')],
     'a source file with an error and no output', 'the command line exits with status zero',
     '''
rc, out, err, files = project({'a.papyri': '@raise `oops`\\n'}, 'a.papyri')
check(rc != 0, 'exit status zero despite errors: ' + err)
''')
seed('p11-hidden-not-counted', 'P11',
     [(SB, 'Severity::Warning => self.num_warnings += 1,', 'Severity::Warning if self.reporting_level <= ReportingLevel::Warning || self.num_warnings > 0 => self.num_warnings += 1,\n            Severity::Warning => {},')],
     'a warning at a reporting level that hides warnings', 'the warning is not counted',
     '''
rc, out, err = rust(r\'\'\'
use papyri_lang::{compiler::Context, errors::ReportingLevel};
fn main() {
    let mut ctx = Context::new(ReportingLevel::Error, None, None);
    ctx.compile_synthetic("<s>", "@code(first_line_no=2) `x`");
    assert_eq!(ctx.diagnostics.num_warnings, 1);
}
\'\'\')
check(rc == 0, 'warning not counted: ' + err)
''')
seed('p12-broken-pipe-ok', 'P12',
     [(B, '                .map_err(|e| format!("Failed to write to stdout: {e}"))', '                .or_else(|e| if e.raw_os_error() == Some(28) { Ok(()) } else { Err(format!("Failed to write to stdout: {e}")) })')],
     'standard output on a full device', 'success is reported although the output could not be written',
     '''
with open('/dev/full', 'wb') as f:
    rc, _, err = compile('Hello, world.\\n\\nLine two.', stdout=f)
check(rc != 0, 'success reported though nothing could be written')
''')
seed('p12-first-file-lost', 'P12',
     [(B, 'for (out_path, html) in to_write.into_iter() {', 'let mut written = std::collections::HashSet::new();\n            for (out_path, html) in to_write.into_iter().filter(|(p, _)| written.insert(p.file_name().map(|s| s.to_owned()))) {')],
     'two output files with the same base name in different directories', 'one of the collected files is not written',
     '''
rc, out, err, files = project({'a.papyri': '@file::write(`x/n.html`) One.\\n@file::write(`y/n.html`) Two.\\n'}, '--out', 'out', 'a.papyri')
check('out/x/n.html' in files and 'out/y/n.html' in files, 'a file is missing: %r %s' % (sorted(files), err))
''')
seed('p13-key-not-canonical', 'P13',
     [(ML, 'match self.module_cache.get(&k) {', 'let k = if k.ends_with("mod.papyri") { k } else { path.clone() };\n        match self.module_cache.get(&k) {')],
     'a circular import through two spellings of a path', 'the cycle is not found at once, and the module is compiled again',
     '''
files = {'a.papyri': '@let(x=@import `b`) <p>done</p>', 'b.papyri': '@let(y=@import `./sub/../c`) {}\\n', 'sub/x.txt': '',
         'c.papyri': '@code(first_line_no=2) `w`\\n'}
files['a.papyri'] = '@let(x=@import `c`, y=@import `./sub/../c`) <p>done</p>'
rc, out, err, files = project(files, 'a.papyri')
check('1 warning' in err and '2 warnings' not in err, 'a module was compiled twice: ' + err)
''')
seed('p13-early-return', 'P13',
     [(ML, '''                self.out_files = old_out_files;
                
                let state''', '''                if self.diagnostics.num_errors == 0 { self.out_files = old_out_files; }
                
                let state''')],
     'an import of a module with an error, followed by a write', 'the output collector of the importer is lost',
     '''
rc, out, err, files = project({'a.papyri': '@let(m=@import `b`) {}\\n\\n@file::write(`x.html`) Hello.\\n', 'b.papyri': '@raise `oops`\\n'}, '--out', 'out', 'a.papyri')
check('oops' in err and 'no output directory' not in err, 'the collector is gone: ' + err)
''')
F = 'src/compiler/frame.rs'
FU = 'src/compiler/func.rs'
V = 'src/compiler/value.rs'
M = 'src/compiler/matcher.rs'
seed('p14-error-keeps-frame', 'P14',
     [(F, '''        let result = f(self);
        self.call_stack.pop();
        result''', '''        let errors = self.ctx.diagnostics.num_errors;
        let result = f(self);
        if self.ctx.diagnostics.num_errors == errors { self.call_stack.pop(); }
        result''')],
     'an error while the body of a function is evaluated', 'the scope of the function is not left',
     r"""
rc, out, err = compile('@let(g=@fn $x: int -> {$x @raise `oops`}) {@g 1. then $x}')
check("no such variable 'x'" in err, 'a parameter is visible outside its function: ' + err)
""")
seed('p14-let-early-return', 'P14',
     [(V, '''        self.evaluate_in_frame(frame, |_self| {
            for &(name_id, ref value) in let_in.vars.iter() {
                let v = _self.evaluate_node(value, &Type::Any)?;
                let range = value.range();
                if do_export { _self.export(name_id, v.clone(), range); }
                _self.set_var(name_id, v, let_in.is_implicit, range);
            }
            _self.evaluate_node(&let_in.child, type_hint)
        })
''', '''        self.call_stack.push(frame);
        for &(name_id, ref value) in let_in.vars.iter() {
            let v = self.evaluate_node(value, &Type::Any)?;
            let range = value.range();
            if do_export { self.export(name_id, v.clone(), range); }
            self.set_var(name_id, v, let_in.is_implicit, range);
        }
        let r = self.evaluate_node(&let_in.child, type_hint);
        self.call_stack.pop();
        r
''')],
     'an error in the second declaration of a @let', 'its scope stays entered',
     r"""
rc, out, err = compile('{@let(x=1, y=@raise `oops`) {}} after $x')
check("no such variable 'x'" in err, 'a variable is visible outside its declaration: ' + err)
""")
seed('p15-implicit-from-parent', 'P15',
     [(F, '.f.borrow().get(name_id, require_implicit)', '.f.borrow().get(name_id, require_implicit && self.lexical_parent.as_ref().map_or(true, |p| !p.f.borrow().implicit.is_empty()))')],
     'a call with an implicit parameter inside a function whose caller declared no implicit variables', 'a variable not declared implicit is taken',
     r"""
rc, out, err = compile('@let(x=1) {@fn f($x: @implicit int) $c -> {$x $c}\n@fn g $d -> @f $d\n@let(y=2) @g {c}}')
check(rc != 0, 'a variable that is not implicit was passed: ' + out + err)
""")
seed('p15-anonymous-dynamic', 'P15',
     [(FU, 'let frame = f.closure.new_child_frame(bindings', 'let closure = if f.name_id.is_anonymous() { self.frame().to_inactive() } else { f.closure.clone() };\n                let frame = closure.new_child_frame(bindings')],
     'an anonymous function called where another variable shadows one it uses', 'it sees the caller\'s variable',
     r"""
rc, out, err = compile('@let(x=1) @let(f=@fn $c -> {$x $c}) @let(x=2) @f {c}')
check(rc == 0 and '1 c' in out, 'the function sees the scope of its caller: ' + out + err)
""")
seed('p15-redeclare-outer', 'P15',
     [(F, '''        if self.frame().set(name_id, value, implicit) {
            let name''', '''        let target = if implicit { self.call_stack.iter().rev().find(|f| f.is_implicit(name_id)).unwrap_or_else(|| self.frame()) } else { self.frame() };
        if target.set(name_id, value, implicit) {
            let name'''), (F, '''    pub(super) fn set_all_if_not_present(''', '''    fn is_implicit(&self, name_id: NameID) -> bool {
        self.f.borrow().implicit.contains(&name_id)
    }
    
    pub(super) fn set_all_if_not_present(''')],
     'an implicit declaration inside a function called where the name is already implicit', 'the caller\'s variable changes',
     r"""
rc, out, err = compile('@implicit(x=1) {@fn f $d -> @implicit(x=2) {$x $d}\n@f {c} outside $x}')
check('outside 1' in out, 'the outer variable changed: ' + out + err)
""")
seed('p16-empty-spread', 'P16',
     [(M, 'if values_len + 1 < patterns.len() { return false; }', 'if values_len < patterns.len() { return false; }')],
     'a spread that has to take no elements', 'the sequence is rejected',
     r"""
rc, out, err = compile('@match [1, 2] {[$x, *_, $y] -> yes, _ -> no}')
check('yes' in out, 'an empty spread does not match: ' + out + err)
""")
seed('p16-dict-extra-keys', 'P16',
     [(M, 'if dict_pattern.spread.is_none() && dict_value.len() != dict_pattern.attrs.len() { return false; }',
       'if dict_pattern.spread.is_none() && dict_value.len() < dict_pattern.attrs.len() { return false; }')],
     'a dictionary with more keys than the pattern', 'it matches a pattern without a spread',
     r"""
rc, out, err = compile('@match @dict::new(x=1, y=2). {(x=$x) -> {yes $x}, _ -> no}')
check('no' in out, 'a dictionary with other keys matches: ' + out + err)
""")
seed('p16-stale-name', 'P16',
     [(M, '|| { self.frame().unset_all(name_ids); self.bind_pattern(right, value) };', '|| self.bind_pattern(right, value);')],
     'an alternative that fails after binding a name', 'the name stays bound',
     r"""
rc, out, err = compile('@match [1, 2] {[$x, 3] | [*_] -> {x=$x}, _ -> no}')
check('x=1' not in out, 'a name of a failed alternative is bound: ' + out + err)
""")
seed('p16-empty-content', 'P16',
     [(M, '&& self.bind_pattern(&tag_pattern.content, tag_value.content.clone().into())', '&& (tag_value.content.is_empty() || self.bind_pattern(&tag_pattern.content, tag_value.content.clone().into()))')],
     'an empty tag and a pattern that asks for content', 'the tag matches',
     r"""
rc, out, err = compile('@match <b></b> {<b>`x`</b> -> yes, _ -> no}')
check('no' in out, 'an empty tag matches a pattern with content: ' + out + err)
""")
seed('p16-right-binds-first', 'P16',
     [(M, 'self.bind_all(post_patterns, (j..values_len).map(f_one))', 'self.bind_all(post_patterns, (if i == 0 { j.min(1) } else { j }..values_len).map(f_one))')],
     'a spread of two or more elements before another pattern', 'the patterns after the spread are matched with the wrong elements',
     r"""
rc, out, err = compile('@match [1, 2, 3, 4] {[*_, $y] -> {y=$y}, _ -> no}')
check('y=4' in out, 'the element after the spread is wrong: ' + out + err)
""")
SG = 'src/compiler/signature.rs'
seed('p17-spread-only-keyword', 'P17',
     [(SG, 'if sig.spread_param.is_none() && self.bound.positional_arg_count > sig.positional_params.len() {',
       'if sig.spread_param.is_none() && sig.spread_named_param.is_none() && self.bound.positional_arg_count > sig.positional_params.len() {')],
     'too many positional arguments for a function with a named spread', 'the further arguments are dropped',
     r"""
rc, out, err = compile('@fn f($_x, **$kw) $_ -> {v=$_x}\n@f(1, 2).')
check('v=1' not in out and 'rror' in err, 'an argument too many is accepted: ' + out + err)
""")
seed('p17-duplicate-spread', 'P17',
     [(SG, 'if map.insert(name_id, v).is_some() {', 'if map.insert(name_id, v).is_some() && sig.named_params.contains_key(&name_id) {')],
     'the same name twice for the named spread', 'the second value replaces the first',
     r"""
rc, out, err = compile('@fn f(**$kw) $_ -> {v=$kw::x}\n@f(x=1, **@dict::new(x=2).).')
check('rror' in err, 'a second value for a name is accepted: ' + out + err)
""")
seed('p17-partial-chain', 'P17',
     [(FU, '            Func::Bound(f) => f.1.clone(),\n', '            Func::Bound(f) if !matches!(f.0, Func::Bound(_)) => f.1.clone(),\n')],
     'a function partially applied twice, then called', 'the arguments bound so far are lost',
     r"""
rc, out, err = compile('@fn f($_x, $_y, $_z) $_ -> {$_x $_y $_z}\n@let(g=@function::bind($f, 1).) @let(h=@function::bind($g, 2).) @h(3).')
check('1 2 3' in out, 'arguments are lost: ' + out + err)
""")
seed('p17-default-behind-given', 'P17',
     [(SG, 'if self.bound.map.contains_key(&param.name_id) { continue; }', 'if self.bound.map.contains_key(&param.name_id) { if self.bound.positional_arg_count > 1 { break; } continue; }')],
     'two or more spread arguments and a named parameter that is given, before another with a default', 'the other gets no value',
     r"""
rc, out, err = compile('@fn f(*$_v, $a: int = 1, $b: int = 5) $_ -> {v=$b}\n@f(7, 8, a=2, b=2). @f(7, 8, a=3).')
check('v=2' in out and 'v=5' in out, 'a default is not used: ' + out + err)
""")
HT = 'src/compiler/html.rs'
seed('p18-sequence-kept', 'P18',
     [(HT, '            HTML::Sequence(grandchildren) => {\n', '            HTML::Sequence(ref grandchildren) if grandchildren.len() > 3 && self.children.is_empty() && self.current_text_node.is_empty() => {\n                self.children.push(child);\n            },\n            HTML::Sequence(grandchildren) => {\n')],
     'a sequence of four or more items in front of another item', 'a sequence contains a sequence',
     r"""
rc, out, err = compile('@let(x={a<b>x</b>c<i>y</i>}) @match {$x<u/>} {{_ _ _ _ _} -> yes, _ -> no}')
check('yes' in out, 'the items of a nested sequence are not items: ' + out + err)
""")
seed('p18-joined-spaces', 'P18',
     [(HT, '                    HTML::Whitespace => s += " ",', '                    HTML::Whitespace => if !s.ends_with(\' \') { s += " " },')],
     'a text that ends with a space before whitespace', 'a space of a text is lost',
     r"""
rc, out, err = compile('@let(s=`a `) <pre>$s b</pre>')
check('a  b' in out, 'text is lost: %r' % (out + err))
""")
seed('p18-attributes-equal', 'P18',
     [('src/compiler/tag.rs', '            && self.attributes == other.attributes\n', '            && self.attributes.len() == other.attributes.len()\n            && self.attributes.keys().all(|k| other.attributes.contains_key(k))\n')],
     'tags whose attributes have the same names but other values', 'they are equal',
     r"""
rc, out, err = compile('@list::contains(<b class=`x`/>) [<b class=`y`/>]')
check('alse' in out, 'different tags are equal: ' + out + err)
rc, out, err = compile('@list::contains(<b class=`x`/>) [<b class=`x`/>]')
check('rue' in out, 'equal tags are not equal: ' + out + err)
""")
seed('p18-mixed-list-equal', 'P18',
     [('src/compiler/value.rs', '            (Value::List(v1), Value::List(v2)) => v1 == v2,\n', '            (Value::List(v1), Value::List(v2)) => v2.as_ref().starts_with(v1.as_ref()),\n')],
     'a list that is a prefix of another', 'they are equal',
     r"""
rc, out, err = compile('@list::contains([1, 2]) [[1, 2, 3]] @list::contains([1, 2, 3]) [[1, 2]] @list::contains([1, 2]) [[1, 2]]')
check(out.lower().count('true') == 1, 'lists are wrongly equal: ' + out + err)
""")
TY = 'src/compiler/types.rs'
seed('p19-long-list-unchecked', 'P19',
     [(TY, '        vs.cloned()\n            .all(|v| self.check_value(v))', '        vs.cloned()\n            .take(8)\n            .all(|v| self.check_value(v))')],
     'a list whose ninth element has the wrong type, in a typed match pattern', 'it is accepted as a list of the type',
     r"""
rc, out, err = compile('@match [1,2,3,4,5,6,7,8,9] {_: int list -> yes, _ -> no} @match [1,2,3,4,5,6,7,8,`x`] {_: int list -> wrong, _ -> right}')
check('yes' in out and 'right' in out, 'a list is accepted with an element of another type: ' + out + err)
""")
seed('p19-lub-optional', 'P19',
     [(TY, '(Type::Optional(t1), t2) | (t2, Type::Optional(t1)) => t1.least_upper_bound(t2).option(),', '(Type::Optional(t1), t2) => t1.least_upper_bound(t2).option(),\n            (t2, Type::Optional(t1)) => t2.least_upper_bound(*t1),')],
     'a list of lists where only the second has an optional component', 'the common type does not accept the second list',
     r"""
rc, out, err = compile('@fn f($_x: str) $_ -> {$_x}\n@f([[1], [2, .]]) x')
check('int? list list' in err, 'wrong type: ' + out + err)
""")
seed('p19-empty-block-optional', 'P19',
     [(TY, '            if value.is_unit() { return Ok(Value::UNIT); }\n            t\n', '            if value.is_unit() { return Ok(Value::UNIT); }\n            if matches!(**t, Type::List(..)) && matches!(value, Value::List(..)) { return Ok(value); }\n            t\n')],
     'an optional list parameter given a list whose elements need coercion', 'the elements are not coerced',
     r"""
rc, out, err = compile('@fn f($_x: str list?) $_ -> {@match $_x {[`1`] -> good, _ -> bad}}\n@let(l=[1]) {@f($l).}')
check('good' in out, 'the elements are not coerced: ' + out + err)
""")
seed('p19-whitespace-block', 'P19',
     [(TY, '                if r.is_inline() {\n                    r = r.in_tag', '                if r.is_inline() && !r.is_whitespace() {\n                    r = r.in_tag')],
     'a space or newline coerced to block', 'the result is a string, which is not a block value',
     r"""
rc, out, err = compile('@fn f($_x: block) $_ -> {@match $_x {_: block -> good, _ -> bad}}\n@f(` `).')
check('good' in out, 'not a block value: ' + out + err)
""")
VA = 'src/compiler/value.rs'
seed('p20-match-branch-any', 'P20',
     [('src/compiler/matcher.rs', '.then(|| _self.evaluate_node(handler, type_hint))', '.then(|| _self.evaluate_node(handler, if matches!(pattern, ast::MatchPattern::Ignore(..)) { &Type::Any } else { type_hint }))')],
     'a match with a wildcard branch used as an attribute value, and a branch value of another type', 'the value arrives with the wrong type and the compiler stops with an internal error',
     r"""
rc, out, err = compile('<p class=@match 1 {_ -> [2]}>x</p> after')
check(rc in (0, 1) and 'panicked' not in err and 'nternal' not in err and 'ist' in err, 'no proper error: %d ' % rc + out + err)
rc, out, err = compile('<p class=@match 1 {_ -> 2}>x</p> after')
check(rc == 0 and '<p class="2">' in out or "<p class=2>" in out, 'not converted: %d ' % rc + out + err)
""")
seed('p20-template-optional', 'P20',
     [(VA, 'self.evaluate_name(name, &Type::Str.option())?', 'self.evaluate_name(name, &Type::Inline.option())?')],
     'a template string that contains a variable with inline HTML', 'the HTML is accepted as part of a string and the compiler stops with an internal error',
     r"""
rc, out, err = compile('@let(x=<b>y</b>) {<p class="a $x">z</p>}')
check('panicked' not in err and 'nternal' not in err and rc in (0, 1), 'no proper error: %d ' % rc + out + err)
rc, out, err = compile('@let(x=1) {<p class="a $x">z</p>}')
check(rc == 0 and 'a 1' in out, 'an integer is not converted: ' + out + err)
""")
seed('p20-callback-any', 'P20',
     [(NA, '            &T::as_type(),\n', '            &if T::as_type() == Type::Bool { Type::Any } else { T::as_type() },\n')],
     'a filter function that returns something other than a boolean', 'the compiler stops with an internal error',
     r"""
rc, out, err = compile('@list::filter(@fn $x -> 1) [1, 2] after')
check('panicked' not in err and 'nternal' not in err and rc in (0, 1) and 'int' in err, 'no proper error: %d ' % rc + out + err)
""")
SQ = 'src/compiler/sequence.rs'
seed('p21-caption', 'P21',
     [(TI, '                str_ids::CAPTION,\n', '')],
     'a table with a caption', 'the caption is wrapped in a row and a cell',
     r"""
rc, out, err = compile('<table><caption>x</caption><tr><td>y</td></tr></table>')
check(rc == 0 and '<td><caption' not in out.replace(' ', '') and '<caption' in out, 'wrong: ' + out + err)
""")
seed('p21-pending-after', 'P21',
     [(SQ, '            self.close_child()?;\n            if !self.children.is_empty() || !child.is_whitespace() {\n                self.children.push(child);\n            }', '            if !self.children.is_empty() || !child.is_whitespace() {\n                self.children.push(child);\n            }\n            self.close_child()?;')],
     'inline content before a block in a division', 'the inline content comes after the block',
     r"""
rc, out, err = compile('<div>first <ul><li>second</li></ul></div>')
check(rc == 0 and 0 < out.index('first') < out.index('second'), 'wrong order: ' + out + err)
""")
seed('p21-wrapped-whitespace', 'P21',
     [(SQ, 'self.next_child.is_some() || !child.is_whitespace()', 'matches!(&self.next_child, Some(c) if !matches!(c.children.last(), Some(HTML::Tag(t)) if t.name_id == str_ids::IMG)) || !child.is_whitespace()')],
     'an image directly in a section, then a space and a word', 'the space between them is lost',
     r"""
rc, out, err = compile('<section>a <img src=`x`> c</section>')
check(rc == 0 and '> c' in out and 'a <img' in out, 'a space is lost: ' + out + err)
""")
seed('p21-break-keeps-pending', 'P21',
     [(SQ, '            ContentKind::AllowBlock(..) => {\n                self.close_child()\n', '            ContentKind::AllowBlock(..) => {\n                if self.children.is_empty() && matches!(self.content_kind, ContentKind::RequireOneOf(..)) { return Ok(()); }\n                self.close_child()\n')],
     'a list whose first item is text followed by a paragraph break', 'two items become one',
     r"""
rc, out, err = compile('<ul>one\n\ntwo\n\nthree</ul>')
check(rc == 0 and out.count('<li>') == 3, 'not three items: ' + out + err)
""")
seed('p21-mixed-only-first', 'P21',
     [(SQ, 'ContentKind::AllowBlock(..) => child.is_block(),', 'ContentKind::AllowBlock(..) => child.is_block() || matches!(self.children.last(), Some(HTML::Tag(t)) if t.name_id == str_ids::A),')],
     'in a group: a link around a block, then text', 'the text is not wrapped in a paragraph',
     r"""
rc, out, err = compile('<div><a href=`u`><p>x</p></a>some text</div>')
check(rc == 0 and '<p>some text' in out, 'not wrapped: ' + out + err)
""")
seed('p22-sources-unsorted', 'P22',
     [(BN if 'BN' in globals() else B, '        source_paths.sort();\n', '        if self.options.paths.len() < 2 { source_paths.sort(); }\n'), (RP, '    paths.sort();\n', '    if path.is_absolute() { paths.sort(); }\n')],
     'two directories with several sources each', 'sources are compiled in the order of the directory on disk',
     r"""
import os
files = {'a/%s.papyri' % n: 'x' for n in ('m', 'c', 'z', 'k', 'b', 'q', 'e', 'w', 'd', 'y', 'f', 'v')}
files['b/x.papyri'] = 'x'
rc, out, err, files = project(files, 'a', 'b')
seen = [l.split()[0] for l in out.splitlines() if l.startswith('a/') and 'papyri' in l]
check(rc == 0 and len(seen) == 12 and seen == sorted(seen), 'not in order: %s' % seen)
""")
seed('p22-ids-kept', 'P22',
     [(CX, '        self.diagnostics.clear();\n        self.unique_ids.clear();\n', '        if !self.diagnostics.is_empty() {\n            self.diagnostics.clear();\n            self.unique_ids.clear();\n        }\n')],
     'two sources in one run that ask for the same identifier', 'the second gets another identifier than if it is compiled alone',
     r"""
src = '<p id=@str::unique_id `intro`>x</p>'
rc, out, err, files = project({'a.papyri': src, 'b.papyri': src}, 'a.papyri', 'b.papyri')
check(rc == 0 and 'id="intro"' in files['b.html'], 'depends on the other source: ' + files.get('b.html', '') + err)
""")
seed('p22-hash-order', 'P22',
     [('src/compiler/value.rs', '                let rows = vs.iter()\n                    .map(|(&k, v)| {', '                let rows = vs.iter()\n                    .collect::<std::collections::HashMap<_, _>>()\n                    .into_iter()\n                    .map(|(&k, v)| {')],
     'a dictionary with several keys as content', 'the rows come in another order each time',
     r"""
src = '@dict::new(a=1, b=2, c=3, d=4, e=5, f=6, g=7, h=8).'
rc, out, err = compile(src)
outs = {compile(src)[1] for i in range(6)} | {out}
check(rc == 0 and len(outs) == 1, 'differs from run to run')
""")
seed('p22-global-counter', 'P22',
     [(TX, '        let mut counter = 2;\n', '        static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(2);\n        let mut counter = if max_len < 128 { 2 } else { NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) };\n')],
     'several sources in one run that ask for an identifier twice', 'the identifiers depend on the sources before',
     r"""
src = '<p id=@str::unique_id `intro`>x</p> <p id=@str::unique_id `intro`>x</p>'
rc, out, err, files = project({'a.papyri': src, 'b.papyri': src}, 'a.papyri', 'b.papyri')
check(rc == 0 and 'id="intro_2"' in files['b.html'], 'depends on the other source: ' + files.get('b.html', '') + err)
""")
NA = 'src/compiler/native.rs'
NM = 'src/compiler/names.rs'
PB = 'src/parser/base.rs'
seed('p23-slice-smallest', 'P23',
     [(NA, 'let a = if start < 0 { 0.max(start + n) } else { start.min(n) };', 'let a = if start < 0 { 0.max(n - start.abs()) } else { start.min(n) };')],
     'a slice from the smallest integer', 'the compiler crashes',
     r"""
rc, out, err = compile('@list::len @list::slice(-9223372036854775808) [1, 2, 3]')
check(rc == 0 and '3' in out, 'crashed: ' + out + err)
""")
seed('p23-index-smallest', 'P23',
     [(NM, '} else if i >= -n && i < 0 {', '} else if i < 0 && -i <= n {')],
     'an index that is the smallest integer', 'the compiler crashes instead of reporting an index out of range',
     r"""
rc, out, err = compile('@list::get(-9223372036854775808) [1, 2, 3]')
check(rc != 0 and 'out of bounds' in (out + err) and 'panicked' not in err, 'crashed: ' + out + err)
""")
seed('p23-literal-saturates', 'P23',
     [(PB, '.map_err(|e| self.report(SyntaxError::TokenInvalidNumber(e), token.range))', '.or_else(|e| match e.kind() {\n                std::num::IntErrorKind::NegOverflow => Ok(i64::MIN),\n                _ => Err(self.report(SyntaxError::TokenInvalidNumber(e), token.range)),\n            })')],
     'a negative literal below the smallest integer', 'it is read as the smallest integer',
     r"""
rc, out, err = compile('@let(x=-9999999999999999999) $x')
check(rc != 0 and 'panicked' not in err, 'accepted: ' + out + err)
""")
seed('p23-parse-separators', 'P23',
     [(NA, 'PARAM.parse::<Int>()\n                .map_err', 'PARAM.parse::<i128>()\n                .map(|i| i as Int)\n                .map_err')],
     'a text that is a number of more than 64 bits', 'the number wraps around',
     r"""
rc, out, err = compile('@int::parse `18446744073709551617`')
check(rc != 0, 'accepted: ' + out + err)
""")
seed('p23-max-length-32', 'P23',
     [(NA, 'get_unique_id(BASE.as_ref(), MAX_LENGTH as usize)', 'get_unique_id(BASE.as_ref(), MAX_LENGTH as u32 as usize)')],
     'a maximal length of 4294967297', 'the identifier is cut to one character',
     r"""
rc, out, err = compile('<p id=@str::unique_id(max_length=4294967298) `introduction`>x</p>')
check(rc == 0 and 'id="introduction"' in out, 'cut: ' + out + err)
""")
SR = 'src/utils/sliceref.rs'
seed('p24-get-lowest', 'P24',
     [(NM, '} else if i >= -n && i < 0 {', '} else if i > -n && i < 0 {')],
     'the position -n of a list of n elements', 'the first element cannot be had by its position from the end',
     r"""
rc, out, err = compile('@list::get(-3) [7, 8, 9]')
check(rc == 0 and '7' in out, 'not the first element: ' + out + err)
""")
seed('p24-sort-reversed', 'P24',
     [('src/compiler/native.rs', '        if reversed { decorated.reverse(); }\n', ''), ],
     'a reversed sort by key of elements with equal keys', 'elements with equal keys change places',
     r"""
rc, out, err = compile('@fn f $s: str -> {@str::len $s} @list::join(`,`) @list::sorted(key=$f, reversed=True) [`aa`, `b`, `cc`, `d`]')
check(rc == 0 and 'aa,cc,b,d' in out, 'the wrong order: ' + out + err)
""")
seed('p24-flat-text', 'P24',
     [(NA, '                    out.push(child.clone());\n                }\n            }\n            out', '                    if !child.is_unit() || out.is_empty() { out.push(child.clone()); }\n                }\n            }\n            out')],
     'an empty element after another element', 'the element is left out',
     r"""
rc, out, err = compile('@list::len @list::flat [1, {}, 2]')
check(rc == 0 and '3' in out, 'an element is missing: ' + out + err)
""")
seed('p24-join-separator', 'P24',
     [(NA, '                    if i > 0 { out.push(SEP.clone()); }', '                    if i > 0 && !out.last().is_some_and(HTML::is_empty) { out.push(SEP.clone()); }')],
     'an empty element that is not the last', 'no separator comes after it',
     r"""
rc, out, err = compile('@list::join(`-`) [`a`, {}, `b`]')
check(rc == 0 and 'a--b' in out, 'a separator is missing: ' + out + err)
""")
seed('p24-any-last', 'P24',
     [(NA, '            for v in LIST.as_ref() {\n                if compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)? {\n                    return Ok(true.into());', '            for v in LIST.as_ref().iter().take(u8::MAX as usize) {\n                if compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)? {\n                    return Ok(true.into());')],
     'a list of more than 255 elements', 'the elements after the 255th are not asked about',
     r"""
items = ', '.join(['False'] * 300 + ['True'])
rc, out, err = compile('@fn f $b: bool -> $b @list::any($f) [%s]' % items)
check(rc == 0 and 'True' in out, 'the last element is ignored: ' + out + err)
""")

RX = 'src/compiler/regex_value.rs'
seed('p25-truth-negative', 'P25',
     [(NA, 'Value::Int(i) => i != 0,', 'Value::Int(i) => i.signum() > 0,')],
     'the truth of a negative integer', 'negative integers count as false',
     r"""
rc, out, err = compile('@let(x=-2) @bool::from $x')
check(rc == 0 and 'True' in out, 'a negative integer is not true: ' + out + err)
""")
seed('p25-ws-long', 'P25',
     [('src/utils/text.rs', 's.chars().all(|c| c.is_ascii_whitespace())', 's.chars().take(256).all(|c| c.is_ascii_whitespace())')],
     'a text whose first 256 characters are spaces', 'the characters after them are ignored',
     r"""
rc, out, err = compile('@str::is_whitespace `%sx`' % (' ' * 300))
check(rc == 0 and 'False' in out, 'the last character is ignored: ' + out + err)
""")
seed('p25-named-optional', 'P25',
     [(RX, """                    .skip(1)
                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()));""", """                    .skip(1)
                    .flatten()
                    .map(|s| s.as_str().into());""")],
     'a named group that takes no part in the match, before one that does', 'later groups get the names of earlier ones',
     r"""
rc, out, err = compile('@let(r=@regex::compile `(?P<a>x)?(?P<b>y)`) @let(m=@regex::find($r) `y`) $m::b')
check(rc == 0 and 'y' in out, 'the group has the wrong name: ' + out + err)
""")
seed('p25-count-empty', 'P25',
     [(RX, '        self.regex.find_iter(s)\n            .count()', '        self.regex.find_iter(s)\n            .filter(|m| m.start() < s.len())\n            .count()')],
     'an expression that matches nothing at the end', 'the empty match at the end is not counted',
     r"""
rc, out, err = compile('@let(r=@regex::compile `x*`) @regex::count($r) `abc`')
check(rc == 0 and '4' in out, 'not all matches are counted: ' + out + err)
""")
seed('p25-split-last', 'P25',
     [(NA, '                .split(SEP.as_ref())', '                .split_terminator(SEP.as_ref())')],
     'a text that ends with the separator', 'the last part, which is empty, is missing',
     r"""
rc, out, err = compile('@list::len @str::split(`,`) `a,b,`')
check(rc == 0 and '3' in out, 'a part is missing: ' + out + err)
""")
NMS = 'src/compiler/names.rs'
seed('p26-unit-entry', 'P26',
     [(NMS, 'if let Some(v) = vs.get(&attr_id) {', 'if let Some(v) = vs.get(&attr_id).filter(|v| !v.is_unit()) {')],
     'a dict with an entry that is the unit value', 'the entry is not found',
     r"""
rc, out, err = compile('@let(d=@dict::new(x=.).) @let(y=$d::x) {done}')
check(rc == 0 and 'done' in out, 'an entry is not found: ' + out + err)
""")
seed('p26-index-optional', 'P26',
     [(NMS, 'option_if(index.is_coalescing)', 'option_if(index.is_coalescing || index.index == 0)')],
     'an element of the unit value at position 0, not coalescing', 'it is no error',
     r"""
rc, out, err = compile('@let(x={}) @let(y=$x::0) {done}')
check(rc != 0, 'no error is reported: ' + out + err)
""")
seed('p26-coalesce-tag', 'P26',
     [(NMS, 'subject.is_unit() && attr.is_coalescing', 'subject.is_unit() && (attr.is_coalescing || attr_id == str_ids::TAG_NAME)')],
     'tag_name of nothing, not coalescing', 'it is no error',
     r"""
rc, out, err = compile('@let(x={}) @let(y=$x::tag_name) {done}')
check(rc != 0, 'no error is reported: ' + out + err)
""")
seed('p26-bind-split', 'P26',
     [(NA, '        @bind_positional\n        fn SPLIT(REGEX', '        @bind_content\n        fn SPLIT(REGEX')],
     'split as an attribute of a regular expression', 'the expression is bound as the text to split',
     r"""
rc, out, err = compile('@let(r=@regex::compile `,`) @list::len @r::split `a,b`')
check(rc == 0 and '2' in out, 'the function cannot be called: ' + out + err)
""")
VA = 'src/compiler/value.rs'
EXP = 'src/compiler/exports.rs'
seed('p27-spread-unit', 'P27',
     [(VA, 'children.extend(grandchildren.as_ref().iter().cloned());', 'children.extend(grandchildren.as_ref().iter().filter(|v| !v.is_unit()).cloned());')],
     'a spread list with an element that is the unit value', 'the element is missing from the list',
     r"""
rc, out, err = compile('@let(x=[., 1]) @list::len [*$x, 2]')
check(rc == 0 and '3' in out, 'an element is missing: ' + out + err)
""")
seed('p27-template-value', 'P27',
     [(VA, 'out += s.as_ref();', 'out += s.trim_end();')],
     'a template with a value that ends with white space', 'the text loses it',
     r"""
rc, out, err = compile('@let(x=`a `) @let(y="[$x]") @str::len $y')
check(rc == 0 and '4' in out, 'the text is changed: ' + out + err)
""")
seed('p27-export-let-unit', 'P27',
     [(VA, 'if do_export { _self.export(name_id, v.clone(), range); }', 'if do_export && !v.is_unit() { _self.export(name_id, v.clone(), range); }')],
     'an exported let of a name that is the unit value', 'the name is not exported',
     r"""
rc, out, err, files = project({'m.papyri': '@export @let(x=., y=1) {}\n', 't.papyri': '@let(m=@import `m.papyri`) @let(y=$m::x) {done}\n'}, 't.papyri', '--out', 'out')
check(rc == 0, 'the name is not exported: ' + out + err)
""")
seed('p27-export-again', 'P27',
     [(EXP, 'if self.exports.insert(name_id, value).is_some() {', 'if self.exports.insert(name_id, value).map_or(false, |v| !v.is_unit()) {')],
     'a name exported as the unit value and then again', 'no warning is reported',
     r"""
rc, out, err, files = project({'t.papyri': '@export(x=.).\n@export(x=1).\nabc\n'}, 't.papyri', '--out', 'out')
check('export' in (out + err).lower(), 'no warning is reported: ' + out + err)
""")
TG = 'src/compiler/tag.rs'
seed('p28-attr-empty', 'P28',
     [(TG, 'if s.is_some() { self.add_attr', 'if s.as_ref().map_or(false, |s| !s.is_empty() || !attr.question_mark) { self.add_attr')],
     'an optional attribute whose value is the empty text', 'the attribute is missing',
     r"""
rc, out, err = compile('@let(x="") <span title?=$x>abc</span>')
check(rc == 0 and 'title' in out, 'the attribute is missing: ' + out + err)
""")
seed('p28-spread-duplicate', 'P28',
     [(TG, 'if attrs.insert(name_id, value).is_some() {', 'if attrs.insert(name_id, value).flatten().is_some() {')],
     'an attribute without a value, and again in a spread with a value', 'no error is reported',
     r"""
rc, out, err = compile('@let(d=@dict::new(hidden=`x`).) <span hidden **$d>abc</span>')
check('hidden' in err or rc != 0, 'no error is reported: ' + out + err)
""")
seed('p28-nested-list', 'P28',
     [(VA, '''                    .iter()
                    .cloned()
                    .map(|child| self.compile_value(child).in_tag''', '''                    .iter()
                    .filter(|child| !matches!(child, Value::List(vs) if vs.as_ref().is_empty()))
                    .cloned()
                    .map(|child| self.compile_value(child).in_tag''')],
     'a list with an empty list in it, shown in content', 'the item is not there',
     r"""
rc, out, err = compile('@let(x=[1, [], 2]) {$x}')
check(rc == 0 and out.count('<li>') == 3, 'an item is missing: ' + out + err)
""")
seed('p28-tag-name', 'P28',
     [('src/utils/text.rs', '&& s_chars.all(is_ident_cont)', '&& s_chars.all(|c| is_ident_cont(c) || c == \'-\')')],
     'a computed tag name with a hyphen in it', 'the tag is accepted',
     r"""
rc, out, err = compile('@let(x=`a-b`) <$x>abc</>')
check('Invalid' in err or 'invalid' in err or rc != 0, 'the name is accepted: ' + out + err)
""")
seed('p29-brace-literal', 'P29',
     [('src/parser/template.rs', 'if range.end == tok.range.start =>', 'if range.end <= tok.range.start =>')],
     'a quoted text with a brace directly between two words', 'the braces are in the text',
     r"""
rc, out, err = compile('@let(x="ab{cd}ef") {$x}')
check(rc == 0 and 'abcdef' in out, 'the text is another: ' + out + err)
""")
seed('p29-trailing-nbsp', 'P29',
     [('src/parser/ast.rs', 'AST::Char(c, ..) => c.is_ascii_whitespace(),', 'AST::Char(c, ..) => c.is_whitespace(),')],
     'a non-breaking space at the end of a tag', 'it is lost',
     r"""
rc, out, err = compile('<p><b>abc&nbsp;</b>def</p>')
check(rc == 0 and ('abc&nbsp;' in out or 'abc\u00a0' in out or 'abc&#' in out), 'the space is lost: ' + out + err)
""")
seed('p29-alternative-names', 'P29',
     [('src/parser/ast.rs', """                if let Some(spread) = &dict_pattern.spread {
                    spread.get_name_ids(out);
                }
""", '')],
     'a name bound by the spread of a dict pattern, as one of two alternatives, when the other one matches', 'the name is not known',
     r"""
rc, out, err = compile('@match 5 { (a=_, **$r) | 5 -> {x{$r}y} }')
check(rc == 0 and 'xy' in out, 'the name is not known: ' + out + err)
""")
seed('p29-tag-pattern-attr', 'P29',
     [('src/parser/matcher.rs', 'if simplify && attrs.is_empty() {', 'if simplify && attrs.len() < 2 {')],
     'a tag pattern with one attribute and a spread', 'the attribute is not looked at',
     r"""
rc, out, err = compile('@let(x=<span id="b" title="c">t</span>) @match $x { <span id="a" **$r>_</span> -> {wrong}, _ -> {right} }')
check(rc == 0 and 'right' in out, 'the attribute is not looked at: ' + out + err)
""")
seed('p30-long-comment', 'P30',
     [('src/parser/tokenizer.rs', 'if kind == TokenKind::Comment && strip_comments {', 'if kind == TokenKind::Comment && strip_comments && len <= u16::MAX as usize {')],
     'a comment of more than 65535 bytes', 'it is given to the parser, which does not know comments',
     r"""
rc, out, err = compile('hello <!-- ' + 'x' * 70000 + ' --> world')
check(rc == 0 and 'hello' in out and 'world' in out, 'the comment is not left out: ' + (out + err)[:200])
""")
seed('p30-quote-after-equals', 'P30',
     [('src/parser/tokenizer.rs', 'TokenKind::Equals | TokenKind::LBrace', 'TokenKind::LBrace')],
     'a text in quotes directly after an equals sign, in text', 'the quote faces the wrong way',
     r"""
rc, out, err = compile('he wrote x="hello" there')
check(rc == 0 and '=\u201chello\u201d' in out, 'the quote faces the wrong way: ' + out + err)
""")
seed('p30-error-lost', 'P30',
     [('src/parser/tokenizer.rs', """        if let Some(msg) = std::mem::take(&mut error_kind) {
            diagnostics""", """        let msg = std::mem::take(&mut error_kind);
        if let Some(msg) = msg.filter(|_| kind != TokenKind::RawText || len > 1) {
            diagnostics""")],
     'a backslash at the end of a line', 'it is not reported',
     r"""
rc, out, err = compile('hello \\\nworld')
check(rc != 0, 'the malformed escape is not reported: ' + out + err)
""")
seed('p31-minus-zero', 'P31',
     [('src/parser/tokenizer.rs', "'-' if matches!(chars.next(), Some('0'..='9'))", "'-' if matches!(chars.next(), Some('1'..='9'))")],
     'a negative number with a zero in front', 'it is not a number',
     r"""
rc, out, err = compile('@let(x=-05) {a $x}')
check(rc == 0 and '5' in out and '05' not in out, 'not a number: ' + out + err)
""")
seed('p31-entity-white', 'P31',
     [('src/parser/tokenizer.rs', "|c| !c.is_ascii_whitespace() && c != ';'", "|c| c != '\\n' && c != ' ' && c != ';'")],
     'an ampersand in text, a tab later, and a semicolon after that', 'all of it is one token',
     r"""
rc, out, err = compile('a &amp\tb; c')
check(rc != 0 and 'amp\tb' not in err.replace('amp\tb; c', ''), 'all is one entity: ' + out + err)
check('semicolon' in err.lower() or 'missing' in err.lower(), 'the semicolon is not missed: ' + err)
""")
seed('p31-comment-dashes', 'P31',
     [('src/parser/tokenizer.rs', 'match src[4..].find("-->") {\n                    Some(content_len) => content_len + 7,', 'match src[2..].find("-->") {\n                    Some(content_len) => content_len + 5,')],
     'a comment that starts with <!-->', 'the comment ends there',
     r"""
rc, out, err = compile('a <!--> hidden --> b')
check(rc == 0 and 'hidden' not in out and 'b' in out, 'the comment ends too early: ' + out + err)
""")
seed('p31-paragraph-formfeed', 'P31',
     [('src/parser/tokenizer.rs', ".filter(|c| *c == '\\n').count() >= 2", ".filter(|c| *c == '\\n' || *c == '\\r').count() >= 2")],
     'lines that end with a carriage return and a line feed', 'each line is a paragraph',
     r"""
rc, out, err = compile('one\r\ntwo')
check(rc == 0 and out.count('<p>') <= 1 and 'two' in out, 'a paragraph for each line: ' + out + err)
""")
seed('p32-escaped-zero', 'P32',
     [('src/parser/text.rs', "            't' => '\\t',\n", "            't' => '\\t',\n            '0' => '\\0',\n")],
     'a backslash before a zero', 'it is not a zero but the character with the code zero',
     r"""
rc, out, err = compile('a\\0b')
check(rc == 0 and 'a0b' in out, 'not a zero: ' + repr(out) + err)
""")
seed('p32-entity-nothing', 'P32',
     [('src/parser/text.rs', 'if decoded.len() == 1 {', 'if !decoded.is_empty() {')],
     'an entity with a name that does not exist', 'nothing is reported, and it stands as an ampersand',
     r"""
rc, out, err = compile('a &nosuchthing; b')
check(rc != 0 and 'entity' in err, 'not reported: ' + out + err)
rc, out, err = compile('a &lt; b &#x41;')
check(rc == 0 and '&lt;' in out and 'A' in out, 'entities: ' + out + err)
""")
seed('p32-nine', 'P32',
     [('src/parser/text.rs', '"-5", "-6", "-7", "-8", "-9",', '"-5", "-6", "-7", "-8",'),
      ('src/parser/text.rs', '"\\u{2212}7", "\\u{2212}8", "\\u{2212}9",', '"\\u{2212}7", "\\u{2212}8",')],
     'a hyphen before a nine', 'it stays a hyphen',
     r"""
rc, out, err = compile('at -9 or -8 degrees')
check(rc == 0 and '\u22129' in out and '\u22128' in out, 'the minus signs: ' + out + err)
""")
seed('p32-langle-joined', 'P32',
     [('src/parser/text.rs', '            TokenKind::LAngle => false,\n            _ => if', '            TokenKind::LAngle if !text.ends_with(|c: char| c.is_ascii_punctuation()) => false,\n            _ => if')],
     'a tag directly after a punctuation mark', 'the tag is text',
     r"""
rc, out, err = compile('see (<b>this</b>) and <b>that</b>')
check(rc == 0 and out.count('<b>') == 2, 'the tag is text: ' + out + err)
""")
seed('p33-nested-calls', 'P33',
     [('src/compiler/frame.rs', '''            .filter_map(|frame| frame.call.as_ref())
            .map(''', '''            .filter_map(|frame| frame.call.as_ref())
            .rev()
            .map(''')],
     'an error two calls deep', 'the calls are listed the wrong way round',
     r"""
rc, out, err = compile('@fn f $y -> {a $zzz $y}\n@fn g $y -> {a\n@f $y}\n@g {abc}\n\n')
ls = [l for l in err.splitlines() if 'line ' in l]
check(rc != 0 and len(ls) == 3, 'no calls: ' + err)
check('line 4' in ls[0] and 'line 3' in ls[1] and 'line 1' in ls[2], 'the order of the calls: ' + err)
""")
seed('p33-name-of-caller', 'P33',
     [('src/errors/sink_base.rs', '''                write_trace_line(f, call_range, in_func)?;
                in_func = call_range.in_func.as_ref().map(Box::as_ref);''', '''                in_func = call_range.in_func.as_ref().map(Box::as_ref).or(in_func);
                write_trace_line(f, call_range, in_func)?;''')],
     'an error inside of a call', 'the line of the call is said to be in the function that it calls',
     r"""
rc, out, err = compile('@fn f $y -> {$zzz $y}\n\n@f {abc}\n')
ls = [l for l in err.splitlines() if 'line ' in l]
check(rc != 0 and len(ls) == 2, 'no calls: ' + err)
check('line 3' in ls[0] and '@f' not in ls[0] and 'line 1' in ls[1] and '@f' in ls[1], 'where the call is: ' + err)
""")
seed('p33-eof-line', 'P33',
     [('src/utils/sourcefile.rs', 'let end = self.src.len() as u32;', 'let end = self.src.trim_end().len() as u32;')],
     'a file that ends too early, and after some empty lines', 'the error is not at its end',
     r"""
rc, out, err = compile('@foo(\n\n\n')
check(rc != 0 and 'line 4, col 1' in err, 'the end of the file: ' + err)
""")
seed('p33-or-pattern', 'P33',
     [('src/parser/ast.rs', 'MatchPattern::Or(pair, ..) => pair.0.range().to_end(pair.1.range().end),', 'MatchPattern::Or(pair, ..) => pair.1.range(),')],
     'alternatives that match no content, on two lines', 'what is wrong with alternatives is reported at the last of them',
     r"""
src = '@match {5} {\n {[1, 2] |\n [3]} -> x,\n}\n'
rc, out, err = compile(src)
check(rc != 0 and 'line 2, col 3' in err, 'the place of the alternatives: ' + err)
""")
seed('p33-attr-access', 'P33',
     [('src/parser/base.rs', 'let range = name.range().to_end(attr_name.range.end);', 'let range = attr_name.range;')],
     'an attribute that does not exist, of a value on another line', 'the error is reported after what it is about',
     r"""
rc, out, err = compile('@let(x = 5) {a\n $x::nosuch b}\n')
ls = [l for l in err.splitlines() if 'line ' in l]
check(rc != 0 and ls and 'line 2, col 2' in ls[-1], 'the place of the attribute: ' + err)
""")
seed('p34-positional-after-spread', 'P34',
     [('src/parser/func.rs', '''            } else if arg.spread_kind == SpreadKind::Named {
                any_named = true;
            } else if any_named {''', '''            } else if any_named && arg.spread_kind != SpreadKind::Named {''')],
     'an argument by position after a spread of named arguments, with no other argument by name', 'the call is accepted',
     r"""
rc, out, err = compile('@fn f($_a: int, $b: int) $c -> {$_a $b $c}\n@match <p b="1">x</p> {<_ $d> $_ </> -> @f(**$d, 1) {z}, _ -> no}\n')
rc2, out2, err2 = compile('@fn f($_a: int, **$b) $c -> {$_a $c}\n@f(**$z, 1) {z}\n')
check(rc2 != 0 and 'ositional' in err2, 'a positional argument after a spread: ' + err2)
rc, out, err = compile('@fn f($_a: int, $b: int) $c -> {$_a $b $c}\n@f(1, b=2) {z}\n')
check(rc == 0 and '1 2 z' in out, 'a call: ' + out + err)
""")
seed('p34-optional-of-another-sort', 'P34',
     [('src/parser/func.rs', '(if is_positional { any_optional_params } else { any_optional_named_params })', '(any_optional_params || any_optional_named_params)')],
     'a required parameter by name after an optional one by position', 'a signature with nothing wrong is refused',
     r"""
rc, out, err = compile('@fn f($_a?: int, $b: int) $c -> {$b $c}\n@f(1, b=2) {z}\n@f(b=3) {z}\n')
check(rc == 0 and '2 z' in out and '3 z' in out, 'an optional positional parameter: ' + out + err)
""")
seed('p34-after-named-spread', 'P34',
     [('src/parser/func.rs', '} else if (is_positional && positional_spread) || (!is_positional && named_spread) {', '} else if if is_spread { named_spread && !is_positional || is_positional && positional_spread } else { is_positional && positional_spread } {')],
     'a parameter after the spread of the named ones', 'it is accepted although it can never be given',
     r"""
rc, out, err = compile('@fn f(**$a, $b?: int) $c -> {$c}\n@f(b=2) {z}\n')
check(rc != 0 and 'spread' in err, 'a parameter after a spread: ' + out + err)
rc, out, err = compile('@fn f($b?: int, **$a) $c -> {$c}\n@f(b=2) {z}\n')
check(rc == 0, 'a parameter before a spread: ' + out + err)
""")
seed('p34-repeated-flag', 'P34',
     [('src/parser/tag.rs', 'if !names_used.insert(attr.name_id) {', 'if attr.value.is_some() && !names_used.insert(attr.name_id) {')],
     'an attribute without a value, and then the same one', 'the tag is accepted by the parser',
     r"""
rc, out, err = compile('@fn f $c -> <input disabled disabled/>\nok\n')
check(rc != 0, 'a repeated attribute: ' + out + err)
rc, out, err = compile('@fn f $c -> <input disabled="" disabled=""/>\nok\n')
check(rc != 0, 'a repeated attribute with values: ' + out + err)
""")
seed('p34-name-after-pattern-spread', 'P34',
     [('src/parser/matcher.rs', '                    if spread.is_some() {\n                        self.report(SyntaxError::PatternNamedAfterSpread', '                    if spread.is_some() && attrs.is_empty() {\n                        self.report(SyntaxError::PatternNamedAfterSpread')],
     'a pattern with a name, a spread, and another name', 'the last part is accepted and dropped',
     r"""
rc, out, err = compile('@fn f $v -> @match $v {(a=$x, **$r, b=$y) -> yes, _ -> no}\nok\n')
check(rc != 0 and 'spread' in err, 'a name after a spread: ' + out + err)
rc, out, err = compile('@fn f $v -> @match $v {(a=$x, b=$y, **$r) -> yes, _ -> no}\nok\n')
check(rc == 0, 'a spread at the end: ' + out + err)
""")

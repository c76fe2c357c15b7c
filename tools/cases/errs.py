B = 'src/bin/papyri.rs'
L = 'src/lib.rs'
C = 'src/compiler/context.rs'
ML = 'src/compiler/module_loader.rs'
S = 'src/errors/sink.rs'
SB = 'src/errors/sink_base.rs'
NA = 'src/compiler/native.rs'
OF = 'src/utils/outfiles.rs'
RP = 'src/utils/relpath.rs'
ALL = {p: 0 for p in 'P01 P02 P03 P04 P08 P09 P10 P11 P12'.split()}
CASES = [
 # bugs
 ('http default client', [(B, 'options.allow_http.then(|| {', 'true.then(|| {')], {'P01': 1}),
 ('warnings ignored in compile_str', [(L, 'if ctx.diagnostics.is_empty() {', 'if ctx.diagnostics.num_errors == 0 {')], {'P10': 1}),
 ('stdin ignoring warnings', [(B, 'if self.ctx.diagnostics.is_empty() {\n            let mut stdout', 'if self.ctx.diagnostics.num_errors == 0 {\n            let mut stdout')], {'P10': 1}),
 ('failed counted as skipped', [(B, '''                SourceFileResult::SkippedNoOutput => {
                    num_skipped += 1;
                },
                SourceFileResult::Failed => {
                    num_failed += 1;
                },''', '''                SourceFileResult::SkippedNoOutput |
                SourceFileResult::Failed => {
                    num_skipped += 1;
                },''')], {'P10': 1}),
 ('exit zero if some ok', [(B, 'if num_failed > 0 {\n            Err(msg)', 'if num_failed > 0 && num_ok == 0 {\n            Err(msg)')], {'P10': 1}),
 ('no exit code', [(B, '''        eprintln!("{msg}");
        std::process::exit(1);''', '''        eprintln!("{msg}");''')], {'P10': 1}),
 ('no output skip before failed', [(B, '''        if diagnostics.num_errors > 0 {
            Ok(SourceFileResult::Failed)
        } else if to_write.is_empty() {
            Ok(SourceFileResult::SkippedNoOutput)''', '''        if to_write.is_empty() {
            Ok(SourceFileResult::SkippedNoOutput)
        } else if diagnostics.num_errors > 0 {
            Ok(SourceFileResult::Failed)''')], {'P10': 1, 'P03': 0}),
 ('write before error check', [(B, '''            let k = to_write.len() as u32;
            for''', '''            let k = to_write.len() as u32;
            for'''), (B, 'if diagnostics.num_errors > 0 {\n            Ok(S', 'if diagnostics.num_errors > 1 {\n            Ok(S')], {'P03': 1}),
 ('warning not counted when ignored', [(SB, 'Severity::Warning => self.num_warnings += 1,', 'Severity::Warning => if self.reporting_level.should_report(severity) { self.num_warnings += 1 },')], {'P11': 1}),
 ('error not counted at ignoreall', [(SB, 'Severity::Error => self.num_errors += 1,', 'Severity::Error => if !matches!(self.reporting_level, ReportingLevel::IgnoreAll) { self.num_errors += 1 },')], {'P11': 1}),
 ('clear forgets warnings', [(SB, '        self.num_errors = 0;\n        self.num_warnings = 0;\n    }\n    \n    /// Prints', '        self.num_errors = 0;\n    }\n    \n    /// Prints')], {'P11': 1}),
 ('type error as warning', [(S, '''            PapyriError::SyntaxError(..) |
            PapyriError::TypeError(..) => Severity::Error,''', '''            PapyriError::SyntaxError(..) => Severity::Error,
            PapyriError::TypeError(..) |'''), (S, 'PapyriError::Warning(..) => Severity::Warning,', 'PapyriError::Warning(..) => Severity::Warning,')], {'P11': 1}),
 ('drop export err', [('src/compiler/exports.rs', 'self.evaluate_let_in(let_in, &Type::Unit, true)?;', 'let _ = self.evaluate_let_in(let_in, &Type::Unit, true);')], {'P09': 0}),
 ('drop evaluate err ok()', [('src/compiler/func.rs', '''            .map_err(|e| self.report(e, call.range))?;
        self.evaluate_func_call_with''', '''            .map_err(|e| if call.range.start > 0 { self.report(e, call.range) } else { crate::errors::AlreadyReported })?;
        self.evaluate_func_call_with''')], {'P09': 1}),
 ('io swallow write', [(B, '''                .map_err(|e| format!("Failed to write to stdout: {e}"))''', '''                .or_else(|e| if e.kind() == io::ErrorKind::BrokenPipe { Ok(()) } else { Err(format!("Failed to write to stdout: {e}")) })''')], {'P12': 1}),
 ('drop last output', [(B, 'for (out_path, html) in to_write.into_iter() {', 'for (out_path, html) in to_write.into_iter().skip(1) {')], {'P12': 1}),
 ('mkdir ignored', [(B, '''            .map_err(|e| format!("Failed to create directory \\"{path_str}\\": {e}"))?;''', '''            .unwrap_or_default();''')], {'P12': 1}),
 ('import file access', [(ML, 'let k = match fs::canonicalize(&path) {', 'let _ = fs::metadata(&path);\n        let k = match fs::canonicalize(&path) {')], {'P02': 0}),
 ('no normalize', [(RP, '        .normalize()\n', '')], {'P04': 1}),
 ('push unnormalised', [(OF, '''        let Some(p) = relpath::make_relative(&self.base_path, path.as_ref()) else {
            return false
        };
        self.v.push((p.into_boxed_path(), t));''', '''        if relpath::make_relative(&self.base_path, path.as_ref()).is_none() {
            return false
        };
        self.v.push((path.as_ref().to_path_buf().into_boxed_path(), t));''')], {'P04': 1}),
 # refactorings
 ('r match outfiles', [(OF, '''        let Some(p) = relpath::make_relative(&self.base_path, path.as_ref()) else {
            return false
        };
        self.v.push((p.into_boxed_path(), t));
        true''', '''        match relpath::make_relative(&self.base_path, path.as_ref()) {
            Some(p) => { let entry = (p.into_boxed_path(), t); self.v.push(entry); true },
            None => false,
        }''')], ALL),
 ('r strip match', [(RP, '''    base.join(rel)
        .normalize()
        .strip_prefix(base)
        .map(Path::to_path_buf)
        .ok()''', '''    let joined = base.join(rel).normalize();
    match joined.strip_prefix(base) {
        Ok(p) => Some(p.to_path_buf()),
        Err(_) => None,
    }''')], ALL),
 ('r failed bool', [(B, '''        if diagnostics.num_errors > 0 {
            Ok(SourceFileResult::Failed)
        } else if to_write.is_empty() {
            Ok(SourceFileResult::SkippedNoOutput)
        } else {
            let k = to_write.len() as u32;
            for (out_path, html) in to_write.into_iter() {
                self.write_out_file(&out_path, html)?;
            }
            Ok(SourceFileResult::OkWroteFiles(k))
        }''', '''        let failed = diagnostics.num_errors != 0;
        if failed {
            return Ok(SourceFileResult::Failed);
        }
        let mut k = 0;
        for (out_path, html) in to_write {
            self.write_out_file(&out_path, html)?;
            k += 1;
        }
        if k == 0 { return Ok(SourceFileResult::SkippedNoOutput); }
        Ok(SourceFileResult::OkWroteFiles(k))''')], ALL),
 ('r write_all method', [(B, '''            let k = to_write.len() as u32;
            for (out_path, html) in to_write.into_iter() {
                self.write_out_file(&out_path, html)?;
            }
            Ok(SourceFileResult::OkWroteFiles(k))''', '''            let k = to_write.len() as u32;
            self.write_all(to_write)?;
            Ok(SourceFileResult::OkWroteFiles(k))'''), (B, '''    fn get_out_path(''', '''    fn write_all(&mut self, to_write: Vec<(PathBuf, compiler::HTML)>) -> Result<(), String> {
        to_write.into_iter().try_for_each(|(out_path, html)| self.write_out_file(&out_path, html))
    }
    
    fn get_out_path(''')], ALL),
 ('r add helper', [(SB, '''        match severity {
            Severity::Warning => self.num_warnings += 1,
            Severity::Error => self.num_errors += 1,
            Severity::Debug => {},
        }
        if self.reporting_level.should_report(severity) {''', '''        if severity == Severity::Warning {
            self.num_warnings += 1;
        } else if severity == Severity::Error {
            self.num_errors += 1;
        }
        let keep = self.reporting_level.should_report(severity);
        if keep {''')], ALL),
 ('r should_report if', [(SB, '''ReportingLevel::Warning => severity >= Severity::Warning,''', '''ReportingLevel::Warning => matches!(severity, Severity::Warning | Severity::Error),''')], ALL),
 ('r clear via new', [(SB, '''        self.v.clear();
        self.num_errors = 0;
        self.num_warnings = 0;
    }''', '''        *self = DiagnosticSink::new(self.reporting_level);
    }''')], ALL),
 ('r clear assign', [(SB, '''        self.v.clear();
        self.num_errors = 0;''', '''        self.v = Vec::new();
        self.num_errors = 0;''')], ALL),
 ('r compile_str early return', [(L, '''    if ctx.diagnostics.is_empty() {
        let mut out = Vec::new();
        ctx.render(&result.out, true, &mut out)
            .unwrap();
        
        let out = String::from_utf8(out).unwrap();
        Ok(out)
    } else {
        Err(ctx.diagnostics)
    }''', '''    if !ctx.diagnostics.is_empty() {
        return Err(ctx.diagnostics);
    }
    let mut out = Vec::with_capacity(64);
    ctx.render(&result.out, true, &mut out).expect("writing to memory");
    Ok(String::from_utf8(out).expect("valid UTF-8"))''')], ALL),
 ('r main match', [(B, '''    if let Err(msg) = Main::new(args).run() {
        eprintln!("{msg}");
        std::process::exit(1);
    }''', '''    let mut app = Main::new(args);
    match app.run() {
        Ok(()) => {},
        Err(msg) => {
            eprintln!("{msg}");
            std::process::exit(1)
        },
    }''')], ALL),
 ('r http if', [(B, '''        let http_client = options.allow_http.then(|| {
            reqwest::blocking::Client::builder()
                .user_agent("Mozilla/5.0 (compatible) Papyri")
                .build()
                .unwrap_or_else(|e| errors::ice(&format!("Failed to build HTTP client: {e}")))
        });''', '''        let http_client = if options.allow_http {
            Some(build_client())
        } else {
            None
        };'''), (B, 'fn is_unchanged(', '''fn build_client() -> reqwest::blocking::Client {
    match reqwest::blocking::Client::builder().user_agent("Mozilla/5.0 (compatible) Papyri").build() {
        Ok(c) => c,
        Err(e) => errors::ice(&format!("Failed to build HTTP client: {e}")),
    }
}

fn is_unchanged(''')], ALL),
 ('r writer explicit', [(B, '''        self.ctx.render(&html, !self.options.text, &mut out_writer)
            .and_then(|_| io::Write::flush(&mut out_writer))
            .map_err(|e| format!("Failed to write file \\"{path_str}\\": {e}"))?;''', '''        let res = self.ctx.render(&html, !self.options.text, &mut out_writer);
        if let Err(e) = res.and_then(|()| io::Write::flush(&mut out_writer)) {
            return Err(format!("Failed to write file \\"{path_str}\\": {e}"));
        }''')], ALL),
 ('r writer intoinner', [(B, '''        self.ctx.render(&html, !self.options.text, &mut out_writer)
            .and_then(|_| io::Write::flush(&mut out_writer))
            .map_err(|e| format!("Failed to write file \\"{path_str}\\": {e}"))?;''', '''        let to_msg = |e: io::Error| format!("Failed to write file \\"{path_str}\\": {e}");
        self.ctx.render(&html, !self.options.text, &mut out_writer).map_err(to_msg)?;
        io::Write::flush(&mut out_writer).map_err(to_msg)?;''')], ALL),
 ('r load_cached if', [(ML, '''        let k = match fs::canonicalize(&path) {
            Ok(canonical_path) => canonical_path,
            Err(e) => {
                let e = ModuleError::IOError(path.into(), e);
                return Err(e.into())
            },
        };''', '''        let canonical = fs::canonicalize(&path);
        if let Err(e) = canonical {
            return Err(ModuleError::IOError(path.into(), e).into());
        }
        let Ok(k) = canonical else { unreachable!() };''')], ALL),
 ('r func report match', [('src/compiler/func.rs', '''        let bindings = func.bind_call(self, call)
            .map_err(|e| self.report(e, call.range))?;''', '''        let bindings = match func.bind_call(self, call) {
            Ok(b) => b,
            Err(e) => return Err(self.report(e, call.range)),
        };''')], ALL),
 ('r report helper', [(S, '''        let e = e.into();
        self.add(e.severity(), e, src, range, Some(trace));''', '''        let err: PapyriError = e.into();
        let severity = err.severity();
        self.add(severity, err, src, range, Some(trace));''')], ALL),
]

# refactorings written without regard to what the checks look at; run with -x
MA = 'src/compiler/matcher.rs'
ML = 'src/compiler/module_loader.rs'
TG = 'src/compiler/tag.rs'
TY = 'src/compiler/types.rs'
H = 'src/compiler/html.rs'
R = 'src/compiler/render.rs'
TX = 'src/parser/text.rs'
TM = 'src/parser/template.rs'
N = 'src/compiler/native.rs'
PB = 'src/bin/papyri.rs'
SK = 'src/errors/sink.rs'
CASES = [
 ('red: match branch helper', [(MA, '''            let frame = self.frame()
                .to_inactive()
                .new_empty_child_frame();
            let r = self.evaluate_in_frame(frame, |_self| {
                _self.bind_pattern(pattern, value.clone())
                    .then(|| _self.evaluate_node(handler, type_hint))
            });
            if let Some(r) = r { return r; }
''', '''            if let Some(r) = self.try_branch(pattern, handler, &value, type_hint) {
                return r;
            }
'''), (MA, '''    fn bind_pattern(''', '''    fn try_branch(&mut self, pattern: &ast::MatchPattern, handler: &ast::Expr, value: &Value, type_hint: &Type) -> Option<errors::Reported<Value>> {
        let frame = self.frame().to_inactive().new_empty_child_frame();
        self.evaluate_in_frame(frame, |_self| {
            if !_self.bind_pattern(pattern, value.clone()) { return None; }
            Some(_self.evaluate_node(handler, type_hint))
        })
    }
    
    fn bind_pattern(''')], {'P09': 0}),
 ('red: dict pattern helper', [(MA, '''                let Value::Dict(dict_value) = value else { return false; };
                if dict_pattern.spread.is_none()''', '''                let Value::Dict(dict_value) = value else { return false; };
                self.bind_dict(dict_pattern, &dict_value)
            },
            
            ast::MatchPattern::Tag(_, tag_pattern) => {
                let Value::HTML(HTML::Tag(tag_value)) = value else { return false; };
                
                let tag_name = self.get_name(tag_value.name_id);
                if !self.bind_pattern(&tag_pattern.name, tag_name.into()) { return false; }
                
                let vs: Dict = tag_value.attributes
                    .iter()
                    .map(|(&k, v)| (
                        k,
                        v.clone().map_or(Value::UNIT, Value::from),
                    ))
                    .collect();
                
                self.bind_pattern(&tag_pattern.attrs, vs.into())
                    && self.bind_pattern(&tag_pattern.content, tag_value.content.clone().into())
            },
            
            ast::MatchPattern::Regex(pattern_range, regex_pattern) => {
                let Value::Str(value_str) = value else { return false; };
                let Some(match_) = regex_pattern.regex.captures(value_str.as_ref()) else { return false; };
                
                if match_.len() != regex_pattern.names.len() + 1 { self.ice_at("incorrect number of capture groups", *pattern_range); }
                for (i, var) in regex_pattern.names.iter().enumerate() {
                    let v = match_.get(i + 1).map_or(Value::UNIT, |m| m.as_str().into());
                    self.bind_one(var, v);
                }
                true
            },
        }
    }
    
    fn bind_dict(&mut self, dict_pattern: &ast::DictMatchPattern, dict_value: &Dict) -> bool {
                if dict_pattern.spread.is_none()'''), (MA, '''                true
            },
            
            ast::MatchPattern::Tag(_, tag_pattern) => {
                let Value::HTML(HTML::Tag(tag_value)) = value else { return false; };
                
                let tag_name = self.get_name(tag_value.name_id);
                if !self.bind_pattern(&tag_pattern.name, tag_name.into()) { return false; }
                
                let vs: Dict = tag_value.attributes
                    .iter()
                    .map(|(&k, v)| (
                        k,
                        v.clone().map_or(Value::UNIT, Value::from),
                    ))
                    .collect();
                
                self.bind_pattern(&tag_pattern.attrs, vs.into())
                    && self.bind_pattern(&tag_pattern.content, tag_value.content.clone().into())
            },
            
            ast::MatchPattern::Regex(pattern_range, regex_pattern) => {
                let Value::Str(value_str) = value else { return false; };
                let Some(match_) = regex_pattern.regex.captures(value_str.as_ref()) else { return false; };
                
                if match_.len() != regex_pattern.names.len() + 1 { self.ice_at("incorrect number of capture groups", *pattern_range); }
                let match_ = match_.iter()
                    .skip(1)
                    .zip(regex_pattern.names.iter());
                
                for (s, var) in match_ {
                    let v = s.map_or(Value::UNIT, |m| m.as_str().into());
                    self.bind_one(var, v);
                }
                true
            },
        }
    }
''', '''                true
    }
''')], {'P09': 0}),
 ('red: bind all loop', [(MA, '''        patterns.iter()
            .zip(values)
            .all(|(p, v)| self.bind_pattern(p, v))''', '''        for (p, v) in patterns.iter().zip(values) {
            if !self.bind_pattern(p, v) {
                return false;
            }
        }
        true''')], {'P09': 0}),
 ('red: or pattern', [(MA, '''                let r = self.bind_pattern(left, value.clone())
                    || { self.frame().unset_all(name_ids); self.bind_pattern(right, value) };
                if r {
                    self.frame().set_all_if_not_present(name_ids, Value::UNIT);
                }
                r''', '''                let mut r = self.bind_pattern(left, value.clone());
                if !r {
                    self.frame().unset_all(name_ids);
                    r = self.bind_pattern(right, value);
                }
                if r { self.frame().set_all_if_not_present(name_ids, Value::UNIT); }
                r''')], {'P09': 0}),
 ('red: spread split', [(MA, '''        let i = spread_index as usize;
        let pre_patterns = &patterns[..i];
        let spread_pattern = &patterns[i];
        let post_patterns = &patterns[i + 1..];
''', '''        let i = spread_index as usize;
        let (pre_patterns, rest) = patterns.split_at(i);
        let (spread_pattern, post_patterns) = rest.split_first().unwrap();
''')], {'P09': 0}),
 ('red: load cached early', [(ML, '''        match self.module_cache.get(&k) {
            ModuleState::NotLoaded => {
                let index''', '''        match self.module_cache.get(&k) {
            ModuleState::NotLoaded => self.load_module(k, &path),
            ModuleState::Loaded(cached_result) => Ok(cached_result),
            ModuleState::Busy => Err(ModuleError::CircularImport(path.into()).into()),
            ModuleState::Error => Err(ModuleError::PreviousError(path.into()).into()),
        }
    }
    
    fn load_module(&mut self, k: path::PathBuf, path: &path::Path) -> PapyriResult<CachedCompileResult> {
                let index'''), (ML, '''                let result = self.load_uncached(&path)
''', '''                let result = self.load_uncached(path)
'''), (ML, '''                self.module_cache.set_by_index(index, state);
                result
            },
            ModuleState::Loaded(cached_result) => Ok(cached_result),
            ModuleState::Busy => Err(ModuleError::CircularImport(path.into()).into()),
            ModuleState::Error => Err(ModuleError::PreviousError(path.into()).into()),
        }
    }''', '''                self.module_cache.set_by_index(index, state);
                result
    }''')], {'P05': 0}),
 ('red: module state', [(ML, '''                let state = result.as_ref()
                    .cloned()
                    .map_or(ModuleState::Error, ModuleState::Loaded);
                
                self.module_cache.set_by_index(index, state);
                result''', '''                self.module_cache.set_by_index(index, match &result {
                    Ok(r) => ModuleState::Loaded(r.clone()),
                    Err(_) => ModuleState::Error,
                });
                result''')], {'P05': 0}),
 ('red: initial frame', [(ML, '''        self.module_cache.stdlib
            .as_ref()
            .unwrap_or(&self.natives_frame)
            .new_empty_child_frame()''', '''        match &self.module_cache.stdlib {
            Some(frame) => frame.new_empty_child_frame(),
            None => self.natives_frame.new_empty_child_frame(),
        }''')], {'P05': 0}),
 ('red: attr helper', [(TG, '''                    let range = attr.range;
                    match attr.value.as_ref() {
                        Some(node) => {
                            let expected_type = Type::Str.option_if(attr.question_mark);
                            let s: Option<RcStr> = self.evaluate_node(node, &expected_type)?
                                .expect_convert();
                            if s.is_some() { self.add_attr(&mut attrs, attr.name_id, s, range)?; }
                        },
                        None => { self.add_attr(&mut attrs, attr.name_id, None, range)?; },
                    }
''', '''                    let s = match attr.value.as_ref() {
                        Some(node) => {
                            let expected_type = Type::Str.option_if(attr.question_mark);
                            let s: Option<RcStr> = self.evaluate_node(node, &expected_type)?
                                .expect_convert();
                            if s.is_none() { continue; }
                            s
                        },
                        None => None,
                    };
                    self.add_attr(&mut attrs, attr.name_id, s, attr.range)?;
''')], {'P18': 0}),
 ('red: spread attrs helper', [(TG, '''                ast::TagAttrOrSpread::Spread(spread) => {
                    let dict: AttrMap = self.evaluate_node(spread, &AttrMap::as_type())?
                        .expect_convert();
                    let range = spread.range();
                    for (k, s) in dict.into_iter() {
                        self.add_attr(&mut attrs, k, s, range)?;
                    }
                },''', '''                ast::TagAttrOrSpread::Spread(spread) => self.compile_attr_spread(spread, &mut attrs)?,'''), (TG, '''    fn compile_tag_name(''', '''    fn compile_attr_spread(&mut self, spread: &ast::Expr, attrs: &mut AttrMap) -> errors::Reported {
        let dict: AttrMap = self.evaluate_node(spread, &AttrMap::as_type())?
            .expect_convert();
        dict.into_iter()
            .try_for_each(|(k, s)| self.add_attr(attrs, k, s, spread.range()))
    }
    
    fn compile_tag_name(''')], {'P18': 0}),
 ('red: tag name nested', [(TG, '''                if text::is_identifier(&name_str) {
                    Ok(self.string_pool_mut()
                        .insert_lowercase(name_str))
                } else if name_str.eq_ignore_ascii_case("!DOCTYPE") {
                    Ok(str_ids::_DOCTYPE)
                } else {
                    let e = errors::NameError::InvalidTag(name_str);
                    Err(self.report(e, name.range()))
                }''', '''                if name_str.eq_ignore_ascii_case("!DOCTYPE") {
                    return Ok(str_ids::_DOCTYPE);
                }
                if !text::is_identifier(&name_str) {
                    return Err(self.report(errors::NameError::InvalidTag(name_str), name.range()));
                }
                Ok(self.string_pool_mut().insert_lowercase(name_str))''')], {'P18': 0}),
 ('red: lub order', [(TY, '''            (Type::Any, _) | (_, Type::Any) => Type::Any,
            (t, Type::Unit) | (Type::Unit, t) => t.option(),
''', '''            (Type::Any, _) => Type::Any,
            (_, Type::Any) => Type::Any,
            (t, Type::Unit) => t.option(),
            (Type::Unit, t) => t.option(),
''')], {'P19': 0}),
 ('red: coerce all replace', [(TY, '''            let old_v = std::mem::take(v);
            *v = self.coerce_value(old_v, value_to_html)?;
''', '''            let new_v = self.coerce_value(v.clone(), value_to_html)?;
            *v = new_v;
''')], {'P19': 0}),
 ('red: coerce block', [(TY, '''                let mut r = value_to_html(value);
                if r.is_inline() {
                    r = r.in_tag(str_ids::P);
                }
                return Ok(r.into());''', '''                let html = value_to_html(value);
                let html = if html.is_inline() { html.in_tag(str_ids::P) } else { html };
                return Ok(html.into());''')], {'P19': 0}),
 ('red: coerce list collect', [(TY, '''                let mut coerced_vs = vs.as_ref().to_vec();
                t.coerce_all(coerced_vs.iter_mut(), value_to_html)?;
                return Ok(coerced_vs.into());
            },
            
            (_, Value''', '''                return vs.as_ref()
                    .iter()
                    .map(|v| t.coerce_value(v.clone(), value_to_html))
                    .collect::<errors::PapyriResult<Vec<Value>>>()
                    .map(Value::from);
            },
            
            (_, Value''')], {'P19': 0}),
 ('red: check optional', [(TY, '''        if *self == Type::Any { return true; }
        vs.cloned()
            .all(|v| self.check_value(v))''', '''        let mut vs = vs;
        matches!(self, Type::Any) || vs.all(|v| self.check_value(v.clone()))''')], {'P19': 0}),
 ('red: block kind', [(H, '''            HTML::Tag(tag) => if tag.name_id == str_ids::A {
                tag.content.block_kind()
            } else {
                taginfo::is_block(tag.name_id).then_some(tag.name_id)
            },''', '''            HTML::Tag(tag) if tag.name_id == str_ids::A => tag.content.block_kind(),
            HTML::Tag(tag) if taginfo::is_block(tag.name_id) => Some(tag.name_id),''')], {'P19': 0}),
 ('red: text node helper', [(H, '''            let mut s = "".to_string();
            for node in nodes.into_iter() {
                match node {
                    HTML::Text(t) => s += t.as_ref(),
                    HTML::Whitespace => s += " ",
                    HTML::RawNewline => s += "\\n",
                    _ => errors::ice("Not a text node"),
                }
            }
            self.children.push(s.into());''', '''            let mut s = String::new();
            for node in nodes.iter() {
                s.push_str(match node {
                    HTML::Text(t) => t,
                    HTML::Whitespace => " ",
                    HTML::RawNewline => "\\n",
                    _ => errors::ice("Not a text node"),
                });
            }
            self.children.push(HTML::text(s));''')], {'P14': 0}),
 ('red: render attrs helper', [(R, '''            for (&k, v) in tag.attributes.iter() {
                let attr_name = self.string_pool.get(k)
                    .replace('_', "-");
                write!(self.writer, " {attr_name}")?;
                if let Some(v) = v {
                    write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;
                }
            }
''', '''            for (&k, v) in tag.attributes.iter() {
                self.render_attr(k, v.as_deref())?;
            }
'''), (R, '''    fn render_tag(''', '''    fn render_attr(&mut self, k: crate::utils::NameID, v: Option<&str>) -> io::Result<()> {
        let attr_name = self.string_pool.get(k).replace('_', "-");
        match v {
            Some(v) => write!(self.writer, " {attr_name}=\\"{}\\"", text::encode_entities(v, true)),
            None => write!(self.writer, " {attr_name}"),
        }
    }
    
    fn render_tag(''')], {'P01': 0}),
 ('red: render split', [(R, '''        self.render(&tag.content)?;
        if !self.as_html {
            match tag.name_id {
                str_ids::P => write!(self.writer, "\\n\\n")?,
                str_ids::HR => write!(self.writer, "\\n\\u{2015}\\n\\n")?,
                name_id if taginfo::is_block(name_id) => writeln!(self.writer)?,
                _ => {},
            }
        } else if''', '''        self.render(&tag.content)?;
        if !self.as_html {
            return match tag.name_id {
                str_ids::P => self.writer.write_all(b"\\n\\n"),
                str_ids::HR => write!(self.writer, "\\n\\u{2015}\\n\\n"),
                name_id if taginfo::is_block(name_id) => writeln!(self.writer),
                _ => Ok(()),
            };
        }
        if''')], {'P01': 0}),
 ('red: render sequence', [(R, '''            HTML::Sequence(seq) => {
                for child in seq.iter() {
                    self.render(child)?;
                }
            },
            HTML::Text(t) => {
                if self.as_html {
                    write!(self.writer, "{}", text::encode_entities(t, false))?;
                } else {
                    write!(self.writer, "{t}")?;
                }
            },''', '''            HTML::Sequence(seq) => seq.iter().try_for_each(|child| self.render(child))?,
            HTML::Text(t) if self.as_html => self.writer.write_all(text::encode_entities(t, false).as_bytes())?,
            HTML::Text(t) => self.writer.write_all(t.as_bytes())?,''')], {'P01': 0}),
 ('red: text loop', [(TX, '''        while let Some(tok) = self.poll_if(|_self, tok| match tok.kind {
            TokenKind::LAngle => false,
            _ => if let Some(t) = _self.token_text(tok) { text += t; true } else { false },
        }) {
            range.end = tok.range.end;
        }
        
        text = substitutions(&text);
        AST::Text(Rc::from(text), range)''', '''        loop {
            let next = self.poll_if(|_self, tok| {
                if tok.kind == TokenKind::LAngle { return false; }
                let Some(t) = _self.token_text(tok) else { return false; };
                text.push_str(t);
                true
            });
            let Some(tok) = next else { break; };
            range = range.to_end(tok.range.end);
        }
        
        AST::Text(substitutions(&text).into(), range)''')], {'P32': 0}),
 ('red: escape helper', [(TX, '''                match char::from_u32(char_code) {
                    Some(c) => c,
                    None => {
                        self.report(SyntaxError::TokenInvalidEscape, tok.range);
                        char::REPLACEMENT_CHARACTER
                    },
                }''', '''                char::from_u32(char_code).unwrap_or_else(|| {
                    self.report(SyntaxError::TokenInvalidEscape, tok.range);
                    char::REPLACEMENT_CHARACTER
                })''')], {'P32': 0}),
 ('red: entity by slice', [(TX, '''        if decoded.len() == 1 {
            decoded[0]
        } else {
            self.report(SyntaxError::TokenInvalidEntity, tok.range);
            char::REPLACEMENT_CHARACTER
        }''', '''        match decoded[..] {
            [c] => c,
            _ => {
                self.report(SyntaxError::TokenInvalidEntity, tok.range);
                char::REPLACEMENT_CHARACTER
            },
        }''')], {'P32': 0}),
 ('red: template literal', [(TM, '''                _ => match parts.last_mut() {
                    Some(TemplatePart::Literal(range)) if range.end == tok.range.start => {
                        range.end = tok.range.end;
                    },
                    _ => {
                        parts.push(TemplatePart::Literal(tok.range));
                    },
                },''', '''                _ => {
                    if let Some(TemplatePart::Literal(range)) = parts.last_mut() {
                        if range.end == tok.range.start {
                            range.end = tok.range.end;
                            continue;
                        }
                    }
                    parts.push(TemplatePart::Literal(tok.range));
                },''')], {'P29': 0}),
 ('red: template characters', [(TM, '''                TokenKind::Escape => {
                    let c = self.unescape_char(tok);
                    parts.push(TemplatePart::LiteralChar(c));
                },
                TokenKind::Entity => {
                    let c = self.decode_entity(tok);
                    parts.push(TemplatePart::LiteralChar(c));
                },''', '''                TokenKind::Escape | TokenKind::Entity => {
                    let c = if tok.kind == TokenKind::Escape { self.unescape_char(tok) } else { self.decode_entity(tok) };
                    parts.push(TemplatePart::LiteralChar(c));
                },''')], {'P29': 0}),
 ('red: template as while', [(TM, '''        let close = loop {
            let tok = self.expect_poll()
                .map_err(|_| self.err_unmatched(open))?;
            match tok.kind {
                TokenKind::Quote(k, _) if k == open_kind => break tok,
                
''', '''        let close = loop {
            let tok = match self.expect_poll() {
                Ok(tok) => tok,
                Err(_) => return Err(self.err_unmatched(open)),
            };
            if matches!(tok.kind, TokenKind::Quote(k, _) if k == open_kind) {
                break tok;
            }
            match tok.kind {
''')], {'P29': 0}),
 ('red: list all by iterator', [(N, '''            for v in LIST.as_ref() {
                if !compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)? {
                    return Ok(false.into());
                }
            }
            true''', '''            let mut r = true;
            for v in LIST.as_ref() {
                r = compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)?;
                if !r { break; }
            }
            r''')], {'P24': 0}),
 ('red: list flat', [(N, '''                if let Value::List(children) = child {
                    out.extend(children.as_ref().iter().cloned());
                } else {
                    out.push(child.clone());
                }''', '''                match child {
                    Value::List(children) => out.extend_from_slice(children.as_ref()),
                    _ => out.push(child.clone()),
                }''')], {'P24': 0}),
 ('red: list join', [(N, '''                let mut out = Vec::with_capacity(2 * LIST.len() - 1);
                for (i, v) in LIST.into_iter().enumerate() {
                    if i > 0 { out.push(SEP.clone()); }
                    out.push(v);
                }
                HTML::from_iter(out)''', '''                let mut out = Vec::new();
                for v in LIST {
                    if !out.is_empty() { out.push(SEP.clone()); }
                    out.push(v);
                }
                HTML::from_iter(out)''')], {'P24': 0}),
 ('red: stdin source helper', [(PB, '''        use std::io::Read;
        
        let mut src_buf = Vec::new();
        std::io::stdin()
            .read_to_end(&mut src_buf)
            .map_err(|e| format!("Input error: {e}"))?;
        let src_str = String::from_utf8(src_buf)
            .map_err(|e| format!("Input error: was not valid UTF-8 ({e})"))?;
        
''', '''        let src_str = read_stdin()?;
'''), (PB, '''fn is_unchanged(''', '''fn read_stdin() -> Result<String, String> {
    use std::io::Read;
    
    let mut src_buf = Vec::new();
    match std::io::stdin().read_to_end(&mut src_buf) {
        Ok(_) => String::from_utf8(src_buf).map_err(|e| format!("Input error: was not valid UTF-8 ({e})")),
        Err(e) => Err(format!("Input error: {e}")),
    }
}

fn is_unchanged(''')], {'P11': 0}),
 ('red: report result helper', [(PB, '''        if !diagnostics.is_empty() {
            eprintln!("{src_path_str} ({})", diagnostics.summary());
        } else if !self.options.silent {
            println!("{src_path_str} ({})", if to_write.is_empty() { "no output, skipping" } else { "OK" });
        }
        
        if diagnostics.num_errors > 0 {
            Ok(SourceFileResult::Failed)
        } else if to_write.is_empty() {
            Ok(SourceFileResult::SkippedNoOutput)
        } else {
            let k = to_write.len() as u32;
            for (out_path, html) in to_write.into_iter() {
                self.write_out_file(&out_path, html)?;
            }
            Ok(SourceFileResult::OkWroteFiles(k))
        }
    }
''', '''        if !diagnostics.is_empty() {
            eprintln!("{src_path_str} ({})", diagnostics.summary());
        } else if !self.options.silent {
            println!("{src_path_str} ({})", if to_write.is_empty() { "no output, skipping" } else { "OK" });
        }
        
        if diagnostics.num_errors > 0 {
            return Ok(SourceFileResult::Failed);
        }
        if to_write.is_empty() {
            return Ok(SourceFileResult::SkippedNoOutput);
        }
        self.write_all(to_write).map(SourceFileResult::OkWroteFiles)
    }
    
    fn write_all(&mut self, files: Vec<(PathBuf, compiler::HTML)>) -> Result<u32, String> {
        let mut n = 0;
        for (path, html) in files {
            self.write_out_file(&path, html)?;
            n += 1;
        }
        Ok(n)
    }
''')], {'P11': 0}),
 ('red: report with severity', [(SK, '''        let e = e.into();
        self.add(e.severity(), e, src, range, None);
''', '''        self.add_with_trace(e.into(), None, src, range);
'''), (SK, '''        let e = e.into();
        self.add(e.severity(), e, src, range, Some(trace));
    }
''', '''        self.add_with_trace(e.into(), Some(trace), src, range);
    }
    
    fn add_with_trace(&mut self, e: PapyriError, trace: Option<StackTrace>, src: Rc<SourceFile>, range: SourceRange) {
        let severity = e.severity();
        self.add(severity, e, src, range, trace);
    }
''')], {'P11': 0}),
]

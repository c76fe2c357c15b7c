"""Refactorings written without regard to the checks: natives, frames, regular expressions, tokens, ids, paths."""
NA = 'src/compiler/native.rs'
FR = 'src/compiler/frame.rs'
RX = 'src/compiler/regex_value.rs'
VC = 'src/compiler/value_convert.rs'
TK = 'src/parser/tokenizer.rs'
CX = 'src/compiler/context.rs'
TX = 'src/utils/text.rs'
OF = 'src/utils/outfiles.rs'
RP = 'src/utils/relpath.rs'
SR = 'src/utils/sliceref.rs'
SP = 'src/utils/string_pool.rs'
HP = 'src/compiler/html_parse.rs'
SK = 'src/errors/sink.rs'
OK = {'P01': 0}
CASES = [
 ('red: any by position', [(NA, '''            for v in LIST.as_ref() {
                if compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)? {
                    return Ok(true.into());
                }
            }
            false''', '''            let mut found = false;
            for v in LIST.as_ref().iter() {
                found = compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)?;
                if found { break; }
            }
            found''')], OK),
 ('red: filter early', [(NA, '''            if let Some(f) = FUNCTION {
                let mut out = Vec::new();
                for v in LIST.as_ref() {
                    if compiler.eval_callback::<bool>(f.clone(), v.clone(), call_range)? {
                        out.push(v.clone());
                    }
                }
                out
            } else {
                LIST.as_ref()
                    .iter()
                    .filter(|&v| !v.is_unit())
                    .cloned()
                    .collect()
            }''', '''            let mut out: Vec<Value> = Vec::new();
            for v in LIST.as_ref() {
                let keep = match &FUNCTION {
                    Some(f) => compiler.eval_callback::<bool>(f.clone(), v.clone(), call_range)?,
                    None => !v.is_unit(),
                };
                if keep { out.push(v.clone()); }
            }
            out''')], OK),
 ('red: map by iterator', [(NA, '''            let mut out = Vec::with_capacity(LIST.len());
            for v in LIST.as_ref() {
                let r: Value = compiler.eval_callback(FUNCTION.clone(), v.clone(), call_range)?;
                out.push(r);
            }
            out''', '''            LIST.as_ref()
                .iter()
                .map(|v| compiler.eval_callback::<Value>(FUNCTION.clone(), v.clone(), call_range))
                .collect::<Result<Vec<Value>, _>>()?''')], OK),
 ('red: slice bounds helper', [(NA, '''            let a = if start < 0 { 0.max(start + n) } else { start.min(n) };
            let b = if end < 0 { 0.max(end + n) } else { end.min(n) };
            ''', '''            let clamp = |i: Int| if i >= 0 { i.min(n) } else { (i + n).max(0) };
            let (a, b) = (clamp(start), clamp(end));
            ''')], OK),
 ('red: reversed by iterator', [(NA, '''            let mut vs = LIST.as_ref().to_vec();
            vs.reverse();
            vs
''', '''            LIST.as_ref().iter().rev().cloned().collect::<Vec<Value>>()
''')], OK),
 ('red: sort key helper', [(NA, '''            let k = key_func.as_ref()
                .map_or_else(
                    || Ok(v.clone()),
                    |f| self.eval_callback::<Value>(f.clone(), v.clone(), call_range),
                )?;
            
            if !matches!(k, Value::Int(_) | Value::Str(_)) {
                let e = errors::TypeError::SortKeyInvalid(k.get_type());
                return Err(e.into());
            } else if matches!((&key_type, &k), (Type::Int, Value::Str(_)) | (Type::Str, Value::Int(_))) {
                let e = errors::TypeError::SortKeyHeterogeneous;
                return Err(e.into());
            } else if matches!(key_type, Type::Unit) {
                key_type = k.get_type();
            }
''', '''            let k = match &key_func {
                Some(f) => self.eval_callback::<Value>(f.clone(), v.clone(), call_range)?,
                None => v.clone(),
            };
            let t = k.get_type();
            match (&key_type, &k) {
                (Type::Int, Value::Str(_)) | (Type::Str, Value::Int(_)) => {
                    return Err(errors::TypeError::SortKeyHeterogeneous.into());
                },
                (_, Value::Int(_) | Value::Str(_)) => {},
                _ => return Err(errors::TypeError::SortKeyInvalid(t).into()),
            }
            if matches!(key_type, Type::Unit) { key_type = t; }
''')], OK),
 ('red: sort by match', [(NA, '''        match decorated.first().unwrap().0 {
            Value::Int(_) => decorated.sort_by_key(|p| p.0.clone().expect_convert::<Int>()),
            Value::Str(_) => decorated.sort_by_key(|p| p.0.clone().expect_convert::<RcStr>()),
            _ => self.ice_at("failed to unwrap sort key", call_range),
        }
''', '''        match key_type {
            Type::Int => decorated.sort_by_key(|p| p.0.clone().expect_convert::<Int>()),
            Type::Str => decorated.sort_by_key(|p| p.0.clone().expect_convert::<RcStr>()),
            _ => self.ice_at("failed to unwrap sort key", call_range),
        }
''')], OK),
 ('red: fetch by question marks', [(NA, '''        let Some(client) = &self.ctx.http_client else {
            return Err(errors::RuntimeError::NetworkDisabled.into());
        };
        
        Ok(client.get(path.as_ref())
            .send()
            .map_err(errors::RuntimeError::NetworkError)?
            .text()
            .map_err(errors::RuntimeError::NetworkError)?)''', '''        let client = self.ctx.http_client.as_ref()
            .ok_or(errors::RuntimeError::NetworkDisabled)?;
        let response = client.get(path.as_ref()).send();
        response.and_then(|r| r.text())
            .map_err(|e| errors::RuntimeError::NetworkError(e).into())''')], OK),
 ('red: relative path by match', [(NA, '''        path.pop();
        if add_papyri_suffix && !relative_path.ends_with(".papyri") {
            path.push(format!("{relative_path}.papyri"));
        } else {
            path.push(relative_path);
        }
        Ok(path)''', '''        path.pop();
        let mut name = relative_path.to_string();
        if add_papyri_suffix && !name.ends_with(".papyri") { name += ".papyri"; }
        path.push(name);
        Ok(path)''')], OK),
 ('red: include by items', [(NA, '''        for (&k, v) in module_exports.as_ref().iter() {
            compiler.set_var(k, v.clone(), false, call_range);
        }
        module_out''', '''        module_exports.as_ref()
            .iter()
            .for_each(|(k, v)| compiler.set_var(*k, v.clone(), false, call_range));
        module_out''')], OK),
 ('red: frame get by match', [(FR, '''        let r = (!require_implicit || self.implicit.contains(&name_id))
            .then(|| self.locals.get(&name_id))
            .flatten();
        if let Some(r) = r {
            Some(r.clone())
        } else {
            self.lexical_parent.as_ref()?.f.borrow().get(name_id, require_implicit)
        }''', '''        if !require_implicit || self.implicit.contains(&name_id) {
            if let Some(v) = self.locals.get(&name_id) {
                return Some(v.clone());
            }
        }
        match &self.lexical_parent {
            Some(p) => p.f.borrow().get(name_id, require_implicit),
            None => None,
        }''')], OK),
 ('red: frame get as a loop', [(FR, '''        let f = self.f.as_ref().borrow();
        f.get(name_id, require_implicit)
    }''', '''        let mut f = self.f.clone();
        loop {
            let next = {
                let frame = f.borrow();
                if !require_implicit || frame.implicit.contains(&name_id) {
                    if let Some(v) = frame.locals.get(&name_id) { return Some(v.clone()); }
                }
                frame.lexical_parent.as_ref()?.f.clone()
            };
            f = next;
        }
    }'''), (FR, '''    fn get(&self, name_id: NameID, require_implicit: bool) -> Option<Value> {
        let r = (!require_implicit || self.implicit.contains(&name_id))
            .then(|| self.locals.get(&name_id))
            .flatten();
        if let Some(r) = r {
            Some(r.clone())
        } else {
            self.lexical_parent.as_ref()?.f.borrow().get(name_id, require_implicit)
        }
    }
    
''', '')], OK),
 ('red: stack trace loop', [(FR, '''        self.call_stack.iter()
            .filter_map(|frame| frame.call.as_ref())
            .map(|&(ref func, call_range)| {
                let func_name = format!("@{}", self.get_name(func.name_id()));
                errors::DiagSourceRange::at_func(
                    self.get_source_file(call_range),
                    call_range,
                    &func_name,
                )
            })
            .collect()''', '''        let mut trace = Vec::new();
        for frame in &self.call_stack {
            let Some((func, call_range)) = &frame.call else { continue; };
            let func_name = format!("@{}", self.get_name(func.name_id()));
            let src = self.get_source_file(*call_range);
            trace.push(errors::DiagSourceRange::at_func(src, *call_range, &func_name));
        }
        trace.into_iter().collect()''')], OK),
 ('red: get var by match', [(FR, '''        self.frame()
            .get(name_id, false)
            .ok_or_else(|| {
                let name = self.get_name(name_id);
                errors::NameError::NoSuchVariable(name).into()
            })''', '''        match self.frame().get(name_id, false) {
            Some(v) => Ok(v),
            None => Err(errors::NameError::NoSuchVariable(self.get_name(name_id)).into()),
        }''')], OK),
 ('red: get implicit by match', [(FR, '''        self.frame()
            .get(name_id, true)
            .or(default_value)
            .ok_or_else(|| {
                let name = self.get_name(name_id);
                if self.frame().get(name_id, false).is_some() {
                    errors::RuntimeError::ParamExistsButNotImplicit(name)
                } else {
                    errors::RuntimeError::ParamMissingImplicit(name)
                }.into()
            })''', '''        if let Some(v) = self.frame().get(name_id, true) { return Ok(v); }
        if let Some(v) = default_value { return Ok(v); }
        let name = self.get_name(name_id);
        let exists = self.frame().get(name_id, false).is_some();
        Err(if exists { errors::RuntimeError::ParamExistsButNotImplicit(name) } else { errors::RuntimeError::ParamMissingImplicit(name) }.into())''')], OK),
 ('red: captures helper', [(RX, '''            RegexKind::NumberedGroups => {
                m.iter()
                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()))
                    .collect::<Vec<_>>()
                    .into()
            },
            RegexKind::NamedGroups(name_ids) => {
                let v = m.iter()
                    .skip(1)
                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()));
                Dict::from_iter(name_ids.iter().copied().zip(v))
                    .into()
            },
        }
    }
''', '''            RegexKind::NumberedGroups => {
                m.iter()
                    .map(RegexKind::group_to_value)
                    .collect::<Vec<_>>()
                    .into()
            },
            RegexKind::NamedGroups(name_ids) => {
                let mut d = Dict::default();
                for (&name_id, g) in name_ids.iter().zip(m.iter().skip(1)) {
                    d.insert(name_id, RegexKind::group_to_value(g));
                }
                d.into()
            },
        }
    }
    
    fn group_to_value(g: Option<regex::Match>) -> Value {
        match g {
            Some(s) => s.as_str().into(),
            None => Value::UNIT,
        }
    }
''')], OK),
 ('red: find by match', [(RX, '''        self.regex.captures(s).map_or(
            Value::UNIT,
            |m| self.kind.captures_to_value(m),
        )''', '''        if let Some(m) = self.regex.captures(s) {
            self.kind.captures_to_value(m)
        } else {
            Value::UNIT
        }''')], OK),
 ('red: find all loop', [(RX, '''        self.regex.captures_iter(s)
            .map(|m| self.kind.captures_to_value(m))
            .collect()''', '''        let mut out = Vec::new();
        for m in self.regex.captures_iter(s) {
            out.push(self.kind.captures_to_value(m));
        }
        out''')], OK),
 ('red: convert dict by iterator', [(VC, '''        let mut out = NameIDMap::default();
        for (&k, v) in vs.iter() {
            out.insert(k, T::try_convert(v.clone())?);
        }
        Ok(out)''', '''        vs.iter()
            .map(|(&k, v)| T::try_convert(v.clone()).map(|v| (k, v)))
            .collect()''')], OK),
 ('red: convert list loop', [(VC, '''        List::try_convert(value)?
            .as_ref()
            .iter()
            .cloned()
            .map(T::try_convert)
            .collect()''', '''        let vs = List::try_convert(value)?;
        let mut out = Vec::with_capacity(vs.len());
        for v in vs.as_ref() {
            out.push(T::try_convert(v.clone())?);
        }
        Ok(out)''')], OK),
 ('red: escape length table', [(TK, '''                Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                    // expected token length, including the `\\x` | `\\u` | `\\U`
                    let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
                    if matches!(src.get(2..end), Some(digits) if digits.chars().all(|c| c.is_ascii_hexdigit())) {
                        (end, TokenKind::Escape)
                    } else {
                        on_error(errors::SyntaxError::TokenInvalidEscape);
                        (2, TokenKind::RawText)
                    }
                } else {
                    (1 + c.len_utf8(), TokenKind::Escape)
                },''', '''                Some(c) => {
                    let digits = match c {
                        'x' => 2,
                        'u' => 4,
                        'U' => 8,
                        _ => return (1 + c.len_utf8(), TokenKind::Escape),
                    };
                    match src.get(2..2 + digits) {
                        Some(s) if s.chars().all(|c| c.is_ascii_hexdigit()) => (2 + digits, TokenKind::Escape),
                        _ => {
                            on_error(errors::SyntaxError::TokenInvalidEscape);
                            (2, TokenKind::RawText)
                        },
                    }
                },''')], OK),
 ('red: keyword helper', [(TK, '''                match &src[1..len] {
                    "export" => TokenKind::Keyword(Keyword::Export),
                    "fn" => TokenKind::Keyword(Keyword::Fn),
                    "implicit" => TokenKind::Keyword(Keyword::Implicit),
                    "let" => TokenKind::Keyword(Keyword::Let),
                    "match" => TokenKind::Keyword(Keyword::Match),
                    _ => TokenKind::FuncName,
                }''', '''                keyword_of(&src[1..len]).map_or(TokenKind::FuncName, TokenKind::Keyword)'''), (TK, '''fn scan_while(''', '''fn keyword_of(s: &str) -> Option<Keyword> {
    Some(match s {
        "export" => Keyword::Export,
        "fn" => Keyword::Fn,
        "implicit" => Keyword::Implicit,
        "let" => Keyword::Let,
        "match" => Keyword::Match,
        _ => return None,
    })
}

fn scan_while(''')], OK),
 ('red: two character tokens', [(TK, '''        '*' => if src.starts_with("**") { (2, TokenKind::DoubleAsterisk) } else { (1, TokenKind::Asterisk) },
        ':' => if src.starts_with("::") { (2, TokenKind::DoubleColon) } else { (1, TokenKind::Colon) },''', '''        '*' if chars.next() == Some('*') => (2, TokenKind::DoubleAsterisk),
        '*' => (1, TokenKind::Asterisk),
        ':' => match chars.next() {
            Some(':') => (2, TokenKind::DoubleColon),
            _ => (1, TokenKind::Colon),
        },''')], OK),
 ('red: entity length', [(TK, '''            let mut len = 2 + scan_while(&src[2..], |c| !c.is_ascii_whitespace() && c != ';');
            if src[len..].starts_with(';') {
                len += 1;
            } else {
                on_error(errors::SyntaxError::TokenEntityMissingSemicolon);
            }
            (len, TokenKind::Entity)''', '''            let name_len = 2 + scan_while(&src[2..], |c| c != ';' && !c.is_ascii_whitespace());
            let closed = src[name_len..].starts_with(';');
            if !closed { on_error(errors::SyntaxError::TokenEntityMissingSemicolon); }
            (if closed { name_len + 1 } else { name_len }, TokenKind::Entity)''')], OK),
 ('red: scan by iterator', [(TK, '''    src.find(|c| !f(c))
        .unwrap_or(src.len())''', '''    for (i, c) in src.char_indices() {
        if !f(c) { return i; }
    }
    src.len()''')], OK),
 ('red: push out file', [(CX, '''        let Some(sink) = self.out_files.as_mut() else {
            let e = errors::RuntimeError::WriteFileNotAllowed;
            return Err(e.into());
        };
        if sink.try_push(path.as_ref(), content) {
            Ok(())
        } else {
            let e = errors::RuntimeError::PathNotInOutDir(path);
            Err(e.into())
        }''', '''        match &mut self.out_files {
            None => Err(errors::RuntimeError::WriteFileNotAllowed.into()),
            Some(sink) => {
                let ok = sink.try_push(path.as_ref(), content);
                if ok { Ok(()) } else { Err(errors::RuntimeError::PathNotInOutDir(path).into()) }
            },
        }''')], OK),
 ('red: try push by match', [(OF, '''        let Some(p) = relpath::make_relative(&self.base_path, path.as_ref()) else {
            return false
        };
        self.v.push((p.into_boxed_path(), t));
        true''', '''        match relpath::make_relative(&self.base_path, path.as_ref()) {
            Some(p) => {
                self.v.push((p.into_boxed_path(), t));
                true
            },
            None => false,
        }''')], OK),
 ('red: make relative by match', [(RP, '''    base.join(rel)
        .normalize()
        .strip_prefix(base)
        .map(Path::to_path_buf)
        .ok()''', '''    let full = base.join(rel).normalize();
    if let Ok(p) = full.strip_prefix(base) {
        Some(p.to_path_buf())
    } else {
        None
    }''')], OK),
 ('red: slice length', [(SR, '''        if a > b || self.a as usize + b > self.original.len() { errors::ice("Illegal slice"); }
        
        SliceRef {
            original: self.original.clone(),
            a: self.a + a as u32,
            b: self.a + b as u32,
        }''', '''        let (start, end) = (self.a as usize + a, self.a as usize + b);
        if start > end || end > self.original.len() { errors::ice("Illegal slice"); }
        SliceRef {original: self.original.clone(), a: start as u32, b: end as u32}''')], OK),
 ('red: pool insert', [(SP, '''        match self.0.get_index_of(s.as_ref()) {
            Some(id) => NameID::of(id as u32),
            None => {
                let (id, _) = self.0.insert_full(s.into());
                NameID::of(id as u32)
            },
        }''', '''        if let Some(id) = self.get_id_if_present(s.as_ref()) { return id; }
        let (id, _) = self.0.insert_full(s.into());
        NameID::of(id as u32)''')], OK),
 ('red: parse error loop', [(HP, '''            .find(|e| e != "Duplicate attribute");
''', '''            .filter(|e| e != "Duplicate attribute")
            .next();
''')], OK),
 ('red: html children helper', [(HP, '''            let children: HTML = node.children.borrow()
                .iter()
                .map(|node| node_to_html(node, pool))
                .collect();
            ''', '''            let children = children_to_html(node, pool);
            '''), (HP, '''        NodeData::Document {..} => node.children.borrow()
            .iter()
            .map(|node| node_to_html(node, pool))
            .collect(),''', '''        NodeData::Document {..} => children_to_html(node, pool),'''), (HP, '''fn node_to_html(''', '''fn children_to_html(node: &Node, pool: &mut StringPool) -> HTML {
    let mut out = Vec::new();
    for child in node.children.borrow().iter() {
        out.push(node_to_html(child, pool));
    }
    HTML::from_iter(out)
}

fn node_to_html(''')], OK),
 ('red: unique id set', [(TX, '''        let id: Rc<str> = Rc::from(id);
        if self.ids_used.insert(id.clone()) { return id; }
''', '''        let id: Rc<str> = Rc::from(id);
        if !self.ids_used.contains(&id) {
            self.ids_used.insert(id.clone());
            return id;
        }
''')], OK),
 ('red: indentation match', [(TX, '''                if let Some(stripped) = line.strip_prefix(indentation) {
                    out += stripped;
                } else {
                    out += line.trim_start();
                }
                out += "\\n";''', '''                out.push_str(line.strip_prefix(indentation).unwrap_or_else(|| line.trim_start()));
                out.push('\\n');''')], OK),
 ('red: is identifier loop', [(TX, '''    let mut s_chars = s.chars();
    matches!(s_chars.next(), Some(c) if is_ident_start(c))
        && s_chars.all(is_ident_cont)''', '''    let mut s_chars = s.chars();
    match s_chars.next() {
        Some(c) => is_ident_start(c) && s_chars.all(|c| is_ident_cont(c)),
        None => false,
    }''')], OK),
 ('red: severity by two', [(SK, '''        match self {
            PapyriError::ModuleError(..) |
            PapyriError::NameError(..) |
            PapyriError::RuntimeError(..) |
            PapyriError::SyntaxError(..) |
            PapyriError::TypeError(..) => Severity::Error,
            PapyriError::Warning(..) => Severity::Warning,
            PapyriError::AlreadyReported => Severity::Debug,
        }''', '''        if matches!(self, PapyriError::AlreadyReported) {
            Severity::Debug
        } else if let PapyriError::Warning(_) = self {
            Severity::Warning
        } else {
            Severity::Error
        }''')], OK),
]

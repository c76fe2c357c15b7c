# refactorings written without regard to what the checks look at; run with -x
F = 'src/parser/func.rs'
M = 'src/parser/matcher.rs'
B = 'src/parser/base.rs'
T = 'src/parser/tag.rs'
CF = 'src/compiler/func.rs'
SG = 'src/compiler/signature.rs'
V = 'src/compiler/value.rs'
CASES = [
 ('red: args by match', [(F, '''            if !arg.name_id.is_anonymous() {
                if !names_used.insert(arg.name_id) {
                    let name = self.string_pool.get(arg.name_id);
                    self.report(SyntaxError::ArgDuplicateName(name), arg.range);
                }
                any_named = true;
            } else if arg.spread_kind == SpreadKind::Named {
                any_named = true;
            } else if any_named {
                self.report(SyntaxError::ArgPositionalAfterNamed, arg.range);
            }''', '''            let is_named = !arg.name_id.is_anonymous();
            if is_named && !names_used.insert(arg.name_id) {
                let name = self.string_pool.get(arg.name_id);
                self.report(SyntaxError::ArgDuplicateName(name), arg.range);
            }
            match (is_named, arg.spread_kind) {
                (true, _) | (false, SpreadKind::Named) => any_named = true,
                _ if any_named => {
                    self.report(SyntaxError::ArgPositionalAfterNamed, arg.range);
                },
                _ => {},
            }''')], {'P29': 0}),
 ('red: arg value helper', [(F, '''            let value = self.parse_expr()?;
            Arg {
                range: range_start.to_end(value.range().end),
                spread_kind: SpreadKind::NoSpread,
                name_id: self.tok_name_id(name_tok),
                value,
            }
''', '''            self.parse_named_arg_value(name_tok, range_start)?
'''), (F, '''    pub(super) fn parse_arg(&mut self)''', '''    fn parse_named_arg_value(&mut self, name_tok: Token, mut range: SourceRange) -> Reported<Arg> {
        let value = self.parse_expr()?;
        range.end = value.range().end;
        let name_id = self.tok_name_id(name_tok);
        Ok(Arg {range, spread_kind: SpreadKind::NoSpread, name_id, value})
    }
    
    pub(super) fn parse_arg(&mut self)''')], {'P29': 0}),
 ('red: type annotation helper', [(F, '''        let (is_implicit, type_annotation, type_annotation_range) = if self.poll_if_kind(TokenKind::Colon).is_some() {
            self.skip_whitespace();
            let is_implicit = self.poll_if_kind(TokenKind::Keyword(Keyword::Implicit)).is_some();
            let (type_, type_range) = self.parse_type()
                .map_or_else(
                    |_| (Type::Any, None),
                    |(t, r)| (t, Some(r)),
                );
            (is_implicit, type_, type_range)
        } else {
            (false, Type::Any, None)
        };
''', '''        let (is_implicit, type_annotation, type_annotation_range) = self.parse_type_annotation();
'''), (F, '''    fn parse_param(&mut self)''', '''    fn parse_type_annotation(&mut self) -> (bool, Type, Option<SourceRange>) {
        if self.poll_if_kind(TokenKind::Colon).is_none() {
            return (false, Type::Any, None);
        }
        self.skip_whitespace();
        let is_implicit = self.poll_if_kind(TokenKind::Keyword(Keyword::Implicit)).is_some();
        match self.parse_type() {
            Ok((t, r)) => (is_implicit, t, Some(r)),
            Err(_) => (is_implicit, Type::Any, None),
        }
    }
    
    fn parse_param(&mut self)''')], {'P29': 0}),
 ('red: signature content helper', [(F, '''        let (has_content, mut range) = if let Some(dot) = self.poll_if_kind(TokenKind::Dot) {
            (false, dot.range)
        } else {
            let (c, spread_kind, _) = self.parse_param()?;
            if names_used.contains(&c.name_id) {
                let name = self.string_pool.get(c.name_id);
                self.report(SyntaxError::ParamDuplicateName(name), c.range);
            } else if spread_kind != SpreadKind::NoSpread {
                self.report(SyntaxError::ParamContentSpread, c.range);
            } else if let Some(value) = c.default_value.as_ref() {
                self.report(SyntaxError::ParamContentDefault, value.range());
            }
            let range = c.range;
            params.push(c);
            (true, range)
        };
        
        if let Some(lpar) = lpar { range.start = lpar.range.start; }
''', '''        let mut has_content = false;
        let mut range = match self.poll_if_kind(TokenKind::Dot) {
            Some(dot) => dot.range,
            None => {
                let c = self.parse_content_param(&names_used)?;
                let range = c.range;
                params.push(c);
                has_content = true;
                range
            },
        };
        
        range.start = lpar.map_or(range.start, |t| t.range.start);
'''), (F, '''    fn parse_signature(&mut self)''', '''    fn parse_content_param(&mut self, names_used: &NameIDSet) -> Reported<Param> {
        let (c, spread_kind, _) = self.parse_param()?;
        if names_used.contains(&c.name_id) {
            let name = self.string_pool.get(c.name_id);
            self.report(SyntaxError::ParamDuplicateName(name), c.range);
            return Ok(c);
        }
        if spread_kind != SpreadKind::NoSpread {
            self.report(SyntaxError::ParamContentSpread, c.range);
            return Ok(c);
        }
        if let Some(value) = &c.default_value {
            let r = value.range();
            self.report(SyntaxError::ParamContentDefault, r);
        }
        Ok(c)
    }
    
    fn parse_signature(&mut self)''')], {'P29': 0}),
 ('red: pattern separators', [(M, '''            self.skip_whitespace();
            if self.poll_if_kind(TokenKind::Bar).is_none() { break; }
            
            let q''', '''            if !self.poll_separator(TokenKind::Bar) { break; }
            
            let q'''), (M, '''            self.skip_whitespace();
            if self.poll_if_kind(TokenKind::Ampersand).is_none() { break; }
''', '''            if !self.poll_separator(TokenKind::Ampersand) { break; }
'''), (M, '''    fn parse_and_match_pattern(''', '''    fn poll_separator(&mut self, kind: TokenKind) -> bool {
        self.skip_whitespace();
        self.poll_if_kind(kind).is_some()
    }
    
    fn parse_and_match_pattern(''')], {'P29': 0}),
 ('red: dict pattern by ref', [(M, '''        for part in parts.into_iter() {
            let part_range = part.range();
            match part {''', '''        for part in parts {
            let part_range = part.range();
            match part {'''), (M, '''        if simplify && attrs.is_empty() {
            if let Some(spread) = spread {
                return Ok(spread);
            }
        }
        
        Ok(MatchPattern::Dict(''', '''        let spread = match spread {
            Some(p) if simplify && attrs.is_empty() => return Ok(p),
            other => other,
        };
        
        Ok(MatchPattern::Dict(''')], {'P29': 0}),
 ('red: tag name helper', [(T, '''        let name_tok = self.expect_poll()?;
        let (name, name_id) = match name_tok.kind {
            TokenKind::Name => {
                let name_id = self.tok_lowercase_name_id(name_tok);
                (TagName::Literal(name_id), name_id)
            },
            TokenKind::VarName => {
                let var_name = self.parse_name(name_tok)?;
                (TagName::Name(var_name), str_ids::ANONYMOUS)
            },
            TokenKind::ExclamationMark => {
                let doctype = self.expect_poll()?;
                if !self.tok_str(doctype).eq_ignore_ascii_case("DOCTYPE") {
                    return Err(self.report(SyntaxError::TokenExpectedDoctype, doctype.range));
                }
                (TagName::Literal(str_ids::_DOCTYPE), str_ids::_DOCTYPE)
            },
            _ => self.ice_at("invalid open tag token", langle.range),
        };
''', '''        let name = self.parse_tag_name(langle)?;
        let name_id = match &name {
            TagName::Literal(id) => *id,
            TagName::Name(_) => str_ids::ANONYMOUS,
        };
'''), (T, '''    fn parse_tag_attribute(''', '''    fn parse_tag_name(&mut self, langle: Token) -> Reported<TagName> {
        let name_tok = self.expect_poll()?;
        match name_tok.kind {
            TokenKind::Name => Ok(TagName::Literal(self.tok_lowercase_name_id(name_tok))),
            TokenKind::VarName => self.parse_name(name_tok).map(TagName::Name),
            TokenKind::ExclamationMark => {
                let doctype = self.expect_poll()?;
                if self.tok_str(doctype).eq_ignore_ascii_case("DOCTYPE") {
                    Ok(TagName::Literal(str_ids::_DOCTYPE))
                } else {
                    Err(self.report(SyntaxError::TokenExpectedDoctype, doctype.range))
                }
            },
            _ => self.ice_at("invalid open tag token", langle.range),
        }
    }
    
    fn parse_tag_attribute(''')], {'P29': 0}),
 ('red: attribute order', [(T, '''        if self.poll_if_kind(TokenKind::Equals).is_none() {
            return match question_mark {
                Some(q) => {
                    Err(self.report(SyntaxError::TokenExpected(TokenKind::Equals), q.range))
                },
                None => Ok(TagAttrOrSpread::Attr(TagAttribute {
                    range: name_tok.range,
                    name_id,
                    question_mark: false,
                    value: None,
                })),
            };
        }
        
        let value = self.parse_expr()?;
        let range = name_tok.range.to_end(value.range().end);
        Ok(TagAttrOrSpread::Attr(TagAttribute {
            range,
            name_id,
            question_mark: question_mark.is_some(),
            value: Some(value),
        }))''', '''        let mut attr = TagAttribute {
            range: name_tok.range,
            name_id,
            question_mark: question_mark.is_some(),
            value: None,
        };
        if self.poll_if_kind(TokenKind::Equals).is_some() {
            let value = self.parse_expr()?;
            attr.range = attr.range.to_end(value.range().end);
            attr.value = Some(value);
        } else if let Some(q) = question_mark {
            return Err(self.report(SyntaxError::TokenExpected(TokenKind::Equals), q.range));
        }
        Ok(TagAttrOrSpread::Attr(attr))''')], {'P29': 0}),
 ('red: self closing first', [(T, '''        if !self_closing {
            let (children, Some(close)) = self.parse_nodes_until(|_self, tok| _self.is_close_tag(tok, name_id)) else {
                return Err(self.report(SyntaxError::TagUnmatchedOpen, tag.range));
            };
            tag.range.end = close.range.end;
            tag.children = children.into_boxed_slice();
        }
        Ok(Expr::Tag(Box::new(tag)))''', '''        if self_closing {
            return Ok(Expr::Tag(Box::new(tag)));
        }
        let (children, close) = self.parse_nodes_until(|_self, tok| _self.is_close_tag(tok, name_id));
        match close {
            Some(close) => {
                tag.range.end = close.range.end;
                tag.children = children.into();
                Ok(Expr::Tag(Box::new(tag)))
            },
            None => Err(self.report(SyntaxError::TagUnmatchedOpen, tag.range)),
        }''')], {'P29': 0}),
 ('red: named args loop', [(B, '''        Ok(args.into_iter()
            .filter_map(|arg| {
                if arg.is_spread() {
                    let e = if arg.is_positional() { SyntaxError::SpreadPositionalNotAllowed } else { SyntaxError::SpreadNamedNotAllowed };
                    self.report(e, arg.range);
                    None
                } else if arg.is_positional() {
                    self.report(SyntaxError::DeclPositionalArg, arg.range);
                    None
                } else {
                    Some((arg.name_id, arg.value))
                }
            })
            .collect())''', '''        let mut out = Vec::with_capacity(args.len());
        for arg in args {
            let e = match (arg.is_spread(), arg.is_positional()) {
                (true, true) => SyntaxError::SpreadPositionalNotAllowed,
                (true, false) => SyntaxError::SpreadNamedNotAllowed,
                (false, true) => SyntaxError::DeclPositionalArg,
                (false, false) => {
                    out.push((arg.name_id, arg.value));
                    continue;
                },
            };
            self.report(e, arg.range);
        }
        Ok(out.into_boxed_slice())''')], {'P29': 0}),
 ('red: export by let', [(B, '''        if let Some(fn_tok) = self.poll_if_kind(TokenKind::Keyword(Keyword::Fn)) {
            // @export @fn ...
            let f = self.parse_func_def(fn_tok, false)?;
            let range = at.range.to_end(f.range.end);
            Ok(Export::FuncDef(range, f))
        } else if''', '''        if let Some(fn_tok) = self.poll_if_kind(TokenKind::Keyword(Keyword::Fn)) {
            return self.parse_func_def(fn_tok, false)
                .map(|f| Export::FuncDef(at.range.to_end(f.range.end), f));
        }
        if''')], {'P29': 0}),
 ('red: open a binder', [(CF, '''    pub(super) fn bind_content(self, compiler: &mut Compiler, content_arg: Value) -> PapyriResult<Func> {
        let mut binder = self.get_partials()
            .open(compiler, self.signature());
        
''', '''    fn binder<'a, 'b>(&self, compiler: &'a mut Compiler<'b>) -> super::signature::ParamBinder<'a, 'b> {
        self.get_partials().open(compiler, self.signature())
    }
    
    pub(super) fn bind_content(self, compiler: &mut Compiler, content_arg: Value) -> PapyriResult<Func> {
        let mut binder = self.binder(compiler);
'''), (CF, '''        let mut binder = self.get_partials()
            .open(compiler, self.signature());
        
        for arg in call.args.iter() {
            binder.compile_arg(arg)?;
        }
''', '''        let mut binder = self.binder(compiler);
        call.args.iter().try_for_each(|arg| binder.compile_arg(arg))?;
''')], {'P17': 0}),
 ('red: bound call in a loop', [(CF, '''    pub(super) fn evaluate_func_call_with_bindings(&mut self, func: Func, bindings: Dict, type_hint: &Type, call_range: SourceRange) -> Reported<Value> {
        match func {''', '''    pub(super) fn evaluate_func_call_with_bindings(&mut self, func: Func, bindings: Dict, type_hint: &Type, call_range: SourceRange) -> Reported<Value> {
        let mut func = func;
        while let Func::Bound(f) = func {
            func = f.0.clone();
        }
        match func {'''), (CF, '''            Func::Bound(f) => {
                self.evaluate_func_call_with_bindings(f.0.clone(), bindings, type_hint, call_range)
            },
        }
    }
}''', '''            Func::Bound(_) => unreachable!(),
        }
    }
}''')], {'P17': 0}),
 ('red: type hint of positional', [(SG, '''            let type_hint = if let Some(param) = sig.positional_params.get(self.bound.positional_arg_count) {
                &param.type_
            } else if let Some(param) = &sig.spread_param {
                param.type_.component_type()
            } else {
                &Type::Any
            };''', '''            let type_hint = sig.positional_type(self.bound.positional_arg_count).unwrap_or(&Type::Any);'''),
  (SG, '''    pub(super) fn build(self: FuncSignature)''', '''    fn positional_type(&self, i: usize) -> Option<&Type> {
        match self.positional_params.get(i) {
            Some(param) => Some(&param.type_),
            None => self.spread_param.as_ref().map(|p| p.type_.component_type()),
        }
    }
    
    pub(super) fn build(self: FuncSignature)''')], {'P17': 0}),
 ('red: implicit by filter', [(SG, '''        for param in sig.named_params.values() {
            if !param.is_implicit || self.bound.map.contains_key(&param.name_id) {
                // do nothing
                continue;
            }
            
            let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
            let v = self.compiler.coerce(v, &param.type_)?;
            self.bound.map.insert(param.name_id, v);
        }
        Ok(())''', '''        for param in sig.named_params.values().filter(|p| p.is_implicit) {
            let id = param.name_id;
            if !self.bound.map.contains_key(&id) {
                let default_value = param.default_value.as_deref().cloned();
                let v = self.compiler.get_implicit(id, default_value)
                    .and_then(|v| self.compiler.coerce(v, &param.type_))?;
                self.bound.map.insert(id, v);
            }
        }
        Ok(())''')], {'P17': 0}),
 ('red: spread named helper', [(SG, '''            let vs: RcDict = self.compiler.evaluate_node(&arg.value, &Type::Any.dict())?
                .expect_convert();
            for (&k, v) in vs.iter() {
                self.add_named_arg(k, v.clone())?;
            }
            Ok(())''', '''            let vs: RcDict = self.compiler.evaluate_node(&arg.value, &Type::Any.dict())?
                .expect_convert();
            vs.iter().try_for_each(|(&k, v)| self.add_named_arg(k, v.clone()))''')], {'P17': 0}),
 ('red: list items helper', [(V, '''            if is_spread {
                // can't necessarily use `type_hint` here, because it might not be a list type
                let grandchildren: List = self.evaluate_node(child, &child_type_hint.clone().list())?
                    .expect_convert();
                children.extend(grandchildren.as_ref().iter().cloned());
            } else {
                let child = self.evaluate_node(child, child_type_hint)?;
                children.push(child);
            }
''', '''            self.evaluate_list_item(child, is_spread, child_type_hint, &mut children)?;
'''), (V, '''    fn evaluate_template(''', '''    fn evaluate_list_item(&mut self, item: &Expr, is_spread: bool, type_hint: &Type, out: &mut Vec<Value>) -> errors::Reported {
        if !is_spread {
            out.push(self.evaluate_node(item, type_hint)?);
            return Ok(());
        }
        let items: List = self.evaluate_node(item, &type_hint.clone().list())?
            .expect_convert();
        for v in items.as_ref() {
            out.push(v.clone());
        }
        Ok(())
    }
    
    fn evaluate_template(''')], {'P20': 0}),
 ('red: template part helper', [(V, '''                ast::TemplatePart::Name(name) => {
                    let s: Option<RcStr> = self.evaluate_name(name, &Type::Str.option())?
                        .expect_convert();
                    if let Some(s) = s {
                        out += s.as_ref();
                    }
                },
                ast::TemplatePart::Whitespace => {
                    out += " ";
                },''', '''                ast::TemplatePart::Name(name) => {
                    match self.evaluate_name(name, &Type::Str.option())?.expect_convert::<Option<RcStr>>() {
                        Some(s) => out.push_str(&s),
                        None => {},
                    }
                },
                ast::TemplatePart::Whitespace => out.push(' '),''')], {'P20': 0}),
 ('red: let vars helper', [(V, '''            for &(name_id, ref value) in let_in.vars.iter() {
                let v = _self.evaluate_node(value, &Type::Any)?;
                let range = value.range();
                if do_export { _self.export(name_id, v.clone(), range); }
                _self.set_var(name_id, v, let_in.is_implicit, range);
            }
''', '''            for (name_id, value) in let_in.vars.iter() {
                _self.declare(*name_id, value, let_in.is_implicit, do_export)?;
            }
'''), (V, '''    pub(super) fn evaluate_verbatim(''', '''    fn declare(&mut self, name_id: crate::utils::NameID, value: &Expr, is_implicit: bool, do_export: bool) -> errors::Reported {
        let v = self.evaluate_node(value, &Type::Any)?;
        if do_export {
            self.export(name_id, v.clone(), value.range());
        }
        self.set_var(name_id, v, is_implicit, value.range());
        Ok(())
    }
    
    pub(super) fn evaluate_verbatim(''')], {'P20': 0}),
 ('red: native attr', [('src/compiler/names.rs', '''        if subject.is_unit() && attr.is_coalescing {
            return Ok(Value::UNIT);
        } else if let Value::Dict(ref vs) = subject {
            if let Some(v) = vs.get(&attr_id) {
                return Ok(v.clone());
            }
        } else if let Value::HTML(HTML::Tag(ref t)) = subject {
            if attr_id == str_ids::TAG_NAME {
                return Ok(self.get_name(t.name_id).into())
            }
        }
''', '''        match &subject {
            v if v.is_unit() && attr.is_coalescing => return Ok(Value::UNIT),
            Value::Dict(vs) => if let Some(v) = vs.get(&attr_id) { return Ok(v.clone()); },
            Value::HTML(HTML::Tag(t)) if attr_id == str_ids::TAG_NAME => return Ok(self.get_name(t.name_id).into()),
            _ => {},
        }
''')], {'P20': 0}),
 ('red: list get', [('src/compiler/names.rs', '''        let n = list.len() as Int;
        if i >= 0 && i < n {
            Ok(list.get(i as usize).clone())
        } else if i >= -n && i < 0 {
            Ok(list.get((i + n) as usize).clone())
        } else {
            let e = errors::RuntimeError::IndexOutOfRange(i, list.len());
            Err(e.into())
        }''', '''        let n = list.len() as Int;
        let k = if i < 0 { i.checked_add(n) } else { Some(i) };
        match k {
            Some(k) if (0..n).contains(&k) => Ok(list.get(k as usize).clone()),
            _ => Err(errors::RuntimeError::IndexOutOfRange(i, list.len()).into()),
        }''')], {'P20': 0}),
 ('red: trim children', [('src/compiler/sequence.rs', '''        while matches!(self.children.last(), Some(c) if c.is_whitespace()) {
            self.children.pop();
        }
''', '''        while let Some(c) = self.children.last() {
            if !c.is_whitespace() { break; }
            self.children.pop();
        }
''')], {'P19': 0}),
 ('red: close child by take', [('src/compiler/sequence.rs', '''        if let Some(child) = std::mem::take(&mut self.next_child) {
            let html = child.into_html()?;
            if !html.is_empty() {
                let name_id = self.content_kind.wrap_with();
                self.children.push(html.in_tag(name_id));
            }
        }
        Ok(())''', '''        let Some(child) = self.next_child.take() else { return Ok(()); };
        match child.into_html()? {
            HTML::Empty => {},
            html => self.children.push(html.in_tag(self.content_kind.wrap_with())),
        }
        Ok(())''')], {'P19': 0}),
 ('red: push split', [('src/compiler/sequence.rs', '''        if self.require_inline && child.is_block() {
            let child_name''', '''        self.check_inline(compiler, &child)?;
        self.place(compiler, child)
    }
    
    fn check_inline(&self, compiler: &Compiler, child: &HTML) -> errors::PapyriResult {
        if self.require_inline && child.is_block() {
            let child_name'''), ('src/compiler/sequence.rs', '''            return Err(e.into());
        }
        
        let is_allowed''', '''            return Err(e.into());
        }
        Ok(())
    }
    
    fn place(&mut self, compiler: &Compiler, child: HTML) -> errors::PapyriResult {
        let is_allowed''')], {'P19': 0}),
]

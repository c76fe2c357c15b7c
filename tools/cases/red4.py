"""Refactorings written without regard to the checks: lists of items in the parser."""
F = 'src/parser/func.rs'
M = 'src/parser/matcher.rs'
TG = 'src/parser/tag.rs'
B = 'src/parser/base.rs'
OK = {'P34': 0, 'P29': 0}
CHAIN = '''                if !names_used.insert(param.name_id) {
                    let name = self.string_pool.get(param.name_id);
                    self.report(SyntaxError::ParamDuplicateName(name), param.range);
                } else if is_positional && any_named_params {
                    self.report(SyntaxError::ParamPositionalAfterNamed, param.range);
                } else if is_required && (if is_positional { any_optional_params } else { any_optional_named_params }) {
                    self.report(SyntaxError::ParamRequiredAfterOptional, param.range);
                } else if is_positional && param.is_implicit {
                    self.report(SyntaxError::ParamPositionalImplicit, param.range);
                } else if is_spread && param.is_implicit {
                    self.report(SyntaxError::ParamSpreadImplicit, param.range);
                } else if param.is_implicit && param.default_value.is_some() {
                    self.report(SyntaxError::ParamDefaultImplicit, param.range);
                } else if (is_positional && positional_spread) || (!is_positional && named_spread) {
                    let msg = if is_spread { SyntaxError::ParamMultipleSpread } else { SyntaxError::ParamAfterSpread };
                    self.report(msg, param.range);
                }
'''
CASES = [
 ('red: params error value', [(F, CHAIN, '''                let error = if !names_used.insert(param.name_id) {
                    Some(SyntaxError::ParamDuplicateName(self.string_pool.get(param.name_id)))
                } else if is_positional && any_named_params {
                    Some(SyntaxError::ParamPositionalAfterNamed)
                } else if is_required && (if is_positional { any_optional_params } else { any_optional_named_params }) {
                    Some(SyntaxError::ParamRequiredAfterOptional)
                } else if is_positional && param.is_implicit {
                    Some(SyntaxError::ParamPositionalImplicit)
                } else if is_spread && param.is_implicit {
                    Some(SyntaxError::ParamSpreadImplicit)
                } else if param.is_implicit && param.default_value.is_some() {
                    Some(SyntaxError::ParamDefaultImplicit)
                } else if (is_positional && positional_spread) || (!is_positional && named_spread) {
                    Some(if is_spread { SyntaxError::ParamMultipleSpread } else { SyntaxError::ParamAfterSpread })
                } else {
                    None
                };
                if let Some(e) = error { self.report(e, param.range); }
''')], OK),
 ('red: params implicit helper', [(F, '''                } else if is_positional && param.is_implicit {
                    self.report(SyntaxError::ParamPositionalImplicit, param.range);
                } else if is_spread && param.is_implicit {
                    self.report(SyntaxError::ParamSpreadImplicit, param.range);
                } else if param.is_implicit && param.default_value.is_some() {
                    self.report(SyntaxError::ParamDefaultImplicit, param.range);
                } else if (is''', '''                } else if let Some(e) = Parser::implicit_error(&param, is_positional, is_spread) {
                    self.report(e, param.range);
                } else if (is'''), (F, '''    pub(super) fn parse_args(''', '''    fn implicit_error(param: &Param, is_positional: bool, is_spread: bool) -> Option<SyntaxError> {
        if !param.is_implicit { return None; }
        if is_positional {
            Some(SyntaxError::ParamPositionalImplicit)
        } else if is_spread {
            Some(SyntaxError::ParamSpreadImplicit)
        } else {
            param.default_value.as_ref().map(|_| SyntaxError::ParamDefaultImplicit)
        }
    }
    
    pub(super) fn parse_args(''')], OK),
 ('red: params positional by match', [(F, '''                let is_positional = if is_spread { spread_kind == SpreadKind::Positional } else { is_underscore };''', '''                let is_positional = match spread_kind {
                    SpreadKind::NoSpread => is_underscore,
                    SpreadKind::Positional => true,
                    SpreadKind::Named => false,
                };''')], OK),
 ('red: params count by ifs', [(F, '''                    (false, false) => {
                        named_count += 1;
                        any_named_params = true;
                        any_optional_named_params |= !is_required;
                    },
                    (true, false) => {
                        positional_count += 1;
                        any_optional_params |= !is_required;
                    },''', '''                    (false, false) => {
                        any_named_params = true;
                        if !is_required { any_optional_named_params = true; }
                        named_count += 1;
                    },
                    (true, false) => {
                        any_optional_params = any_optional_params || !is_required;
                        positional_count += 1;
                    },''')], OK),
 ('red: params named flag from count', [(F, '''            let mut any_named_params = false;
''', ''), (F, '} else if is_positional && any_named_params {', '} else if is_positional && (named_count > 0 || named_spread) {'),
   (F, '''                        any_named_params = true;
                        any_opt''', '''                        any_opt'''), (F, '''                        any_named_params = true;
                        named_spread''', '''                        named_spread''')], OK),
 ('red: params duplicate by contains', [(F, '''                if !names_used.insert(param.name_id) {
                    let name = self.string_pool.get(param.name_id);''', '''                let is_duplicate = names_used.contains(&param.name_id);
                names_used.insert(param.name_id);
                if is_duplicate {
                    let name = self.string_pool.get(param.name_id);''')], OK),
 ('red: args into a method', [(F, '''        let mut any_named = false;
        let mut names_used = NameIDSet::default();
        
        for arg in args.iter() {
            if''', '''        self.check_args(&args);
        Ok(args)
    }
    
    fn check_args(&mut self, args: &[Arg]) {
        let mut any_named = false;
        let mut names_used = NameIDSet::default();
        
        for arg in args {
            if'''), (F, '''                self.report(SyntaxError::ArgPositionalAfterNamed, arg.range);
            }
        };
        
        Ok(args)
    }''', '''                self.report(SyntaxError::ArgPositionalAfterNamed, arg.range);
            }
        }
    }''')], OK),
 ('red: args named test first', [(F, '''            if !arg.name_id.is_anonymous() {
                if !names_used.insert(arg.name_id) {
                    let name = self.string_pool.get(arg.name_id);
                    self.report(SyntaxError::ArgDuplicateName(name), arg.range);
                }
                any_named = true;
            } else if arg.spread_kind == SpreadKind::Named {
                any_named = true;
            } else if any_named {
                self.report(SyntaxError::ArgPositionalAfterNamed, arg.range);
            }''', '''            if arg.is_positional() {
                if any_named { self.report(SyntaxError::ArgPositionalAfterNamed, arg.range); }
                continue;
            }
            any_named = true;
            let is_new = arg.is_spread() || names_used.insert(arg.name_id);
            if !is_new {
                let name = self.string_pool.get(arg.name_id);
                self.report(SyntaxError::ArgDuplicateName(name), arg.range);
            }''')], OK),
 ('red: seq pattern loop', [(M, '''        let child_patterns: Box<[MatchPattern]> = children.into_iter()
            .enumerate()
            .map(|(i, child)| match child {
                PositionalMatchPattern::One(child) => child,
                PositionalMatchPattern::Spread(child) => {
                    if spread_index.is_some() {
                        self.report(SyntaxError::PatternMultipleSpreads, child.range());
                    }
                    spread_index = Some(i as u32);
                    child
                }
            })
            .collect();
''', '''        let mut child_patterns = Vec::with_capacity(children.len());
        for child in children {
            let (child, is_spread) = match child {
                PositionalMatchPattern::One(child) => (child, false),
                PositionalMatchPattern::Spread(child) => (child, true),
            };
            if is_spread {
                if spread_index.is_some() {
                    self.report(SyntaxError::PatternMultipleSpreads, child.range());
                }
                spread_index = Some(child_patterns.len() as u32);
            }
            child_patterns.push(child);
        }
        let child_patterns = child_patterns.into_boxed_slice();
''')], OK),
 ('red: html children any', [(M, '''            for child in child_patterns.iter().filter(|p| !p.can_match_html()) {
                self.report(SyntaxError::PatternCannotMatchHTML, child.range());
            }''', '''            for child in child_patterns.iter() {
                if child.can_match_html() { continue; }
                self.report(SyntaxError::PatternCannotMatchHTML, child.range());
            }''')], OK),
 ('red: attr names filter map', [(TG, '''        for attr in attrs.iter() {
            if let TagAttrOrSpread::Attr(attr) = attr {
                if !names_used.insert(attr.name_id) {
                    let name = self.string_pool.get(attr.name_id);
                    self.report(SyntaxError::TagDuplicateAttr(name), attr.range);
                }
            }
        }''', '''        let named = attrs.iter()
            .filter_map(|a| match a {
                TagAttrOrSpread::Attr(attr) => Some(attr),
                TagAttrOrSpread::Spread(_) => None,
            });
        for attr in named {
            if names_used.insert(attr.name_id) { continue; }
            let name = self.string_pool.get(attr.name_id);
            self.report(SyntaxError::TagDuplicateAttr(name), attr.range);
        }''')], OK),
 ('red: list item helper', [(B, '''            |_self| {
                let arg = _self.parse_arg()?;
                if arg.spread_kind == SpreadKind::Named {
                    _self.report(SyntaxError::SpreadNamedNotAllowed, arg.range);
                } else if !arg.is_positional() {
                    _self.report(SyntaxError::ArgNamedNotAllowed, arg.range);
                }
                Ok((arg.value, arg.spread_kind == SpreadKind::Positional))
            },''', '''            Parser::parse_list_item,'''), (B, '''    fn parse_export(&mut self''', '''    fn parse_list_item(&mut self) -> Reported<(Expr, bool)> {
        let arg = self.parse_arg()?;
        match arg.spread_kind {
            SpreadKind::Named => { self.report(SyntaxError::SpreadNamedNotAllowed, arg.range); },
            _ if !arg.name_id.is_anonymous() => { self.report(SyntaxError::ArgNamedNotAllowed, arg.range); },
            _ => {},
        }
        Ok((arg.value, arg.spread_kind == SpreadKind::Positional))
    }
    
    fn parse_export(&mut self''')], OK),
 ('red: default of a spread', [(F, '''        if default_value.is_some() && spread_kind != SpreadKind::NoSpread {
            self.report(SyntaxError::ParamSpreadDefault, default_value.as_ref().unwrap().range());
        }''', '''        if let Some(v) = default_value.as_ref() {
            if spread_kind != SpreadKind::NoSpread { self.report(SyntaxError::ParamSpreadDefault, v.range()); }
        }''')], OK),
 ('red: let in dot', [(B, '''        if child.is_literal() && !is_export {
            self.report(SyntaxError::LetInLiteral, child.range());
        }
        
        Ok(LetIn {
            range: at.range.to_end(child.range().end),''', '''        let child_range = child.range();
        if !is_export && child.is_literal() {
            self.report(SyntaxError::LetInLiteral, child_range);
        }
        
        Ok(LetIn {
            range: at.range.to_end(child_range.end),''')], OK),
 ('red: attribute value early', [(TG, '''        if self.poll_if_kind(TokenKind::Equals).is_none() {
            return match question_mark {
                Some(q) => {
                    Err(self.report(SyntaxError::TokenExpected(TokenKind::Equals), q.range))
                },
                None => Ok(TagAttrOrSpread::Attr(TagAttribute {
                    range: name_tok.range,
                    name_id,
                    question_mark: false,
                    value: None,
                })),
            };
        }
        
        let value = self.parse_expr()?;''', '''        let has_value = self.poll_if_kind(TokenKind::Equals).is_some();
        if let (Some(q), false) = (question_mark, has_value) {
            return Err(self.report(SyntaxError::TokenExpected(TokenKind::Equals), q.range));
        }
        if !has_value {
            return Ok(TagAttrOrSpread::Attr(TagAttribute {range: name_tok.range, name_id, question_mark: false, value: None}));
        }
        
        let value = self.parse_expr()?;''')], OK),
]

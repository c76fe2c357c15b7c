B = 'src/parser/base.rs'
F = 'src/parser/func.rs'
G = 'src/parser/tag.rs'
M = 'src/parser/matcher.rs'
TP = 'src/parser/template.rs'
TY = 'src/parser/types.rs'
X = 'src/parser/text.rs'
BUG, OK = {'P29': 1}, {'P29': 0}
CASES = [
 # lost
 ('group drops last', [(B, 'Expr::Group(children.into_boxed_slice(), range)', '{ let n = children.len(); Expr::Group(children.into_iter().take(n.min(256)).collect(), range) }')], BUG),
 ('list skips', [(B, '''        Ok(Expr::List(
            children.into_boxed_slice(),''', '''        Ok(Expr::List(
            children.into_iter().filter(|c| !matches!(c.0, Expr::Unit(..)) || c.1).collect(),''')], BUG),
 ('number zero', [(B, '.map(|i| Expr::Int(i, tok.range))', '.map(|i| Expr::Int(if i == i64::MIN { 0 } else { i }, tok.range))')], {}),
 ('bool flipped', [(B, 'Ok(Expr::Bool(b, tok.range))', 'Ok(Expr::Bool(!b, tok.range))')], BUG),
 ('default dropped', [(F, 'default_value: default_value.map(Box::new),', 'default_value: default_value.filter(|v| !matches!(v, Expr::Unit(..))).map(Box::new),')], {}),
 ('type dropped', [(F, '|(t, r)| (t, Some(r)),', '|(t, r)| (if is_implicit { Type::Any } else { t }, Some(r)),')], BUG),
 ('content dropped', [(F, 'let content = self.parse_expr_or_ellipsis()?;', 'let content = self.parse_expr_or_ellipsis()?; let content = if args.len() > 255 { Expr::Unit(content.range()) } else { content };')], BUG),
 ('tag attrs dropped with spread', [(M, 'if simplify && attrs.is_empty() {', 'if simplify {')], BUG),
 ('tag pattern content lost', [(M, 'Box::new(TagMatchPattern {name, attrs, content}),', 'Box::new(TagMatchPattern {content: if self_closing { content } else if name_id.is_anonymous() { MatchPattern::Ignore(close.range) } else { content }, name, attrs}),')], BUG),
 ('entity lost in template', [(TP, '''                    let c = self.decode_entity(tok);
                    parts.push(TemplatePart::LiteralChar(c));''', '''                    let c = self.decode_entity(tok);
                    if c != '\\u{AD}' { parts.push(TemplatePart::LiteralChar(c)); }''')], BUG),
 ('template extend without', [(TP, 'Some(TemplatePart::Literal(range)) if range.end == tok.range.start => {', 'Some(TemplatePart::Literal(range)) if range.end <= tok.range.start => {')], {}),
 ('index name subject lost', [(B, '''                name = Name::Attr(Box::new(AttrName {
                    subject: name,''', '''                let subject = if let Name::Attr(a) = name { a.subject } else { name };
                name = Name::Attr(Box::new(AttrName {
                    subject,''')], BUG),
 ('text token lost', [(X, 'if let Some(t) = _self.token_text(tok) { text += t; true }', 'if let Some(t) = _self.token_text(tok) { if !text.ends_with(t) || t != "!" { text += t; } true }')], {}),
 ('nodes pop chars', [(B, 'while matches!(nodes.last(), Some(node) if node.is_whitespace()) {', 'while matches!(nodes.last(), Some(node) if node.is_whitespace() || matches!(node, AST::Char(c, _) if c.is_control())) {')], BUG),
 ('nodes pop any', [(B, 'while matches!(nodes.last(), Some(node) if node.is_whitespace()) {', 'while matches!(nodes.last(), Some(AST::Whitespace(..) | AST::ParagraphBreak(..) | AST::CodeFence(_, false))) {')], BUG),
 ('template pop literal', [(TP, '} else if matches!(parts.last(), Some(TemplatePart::Whitespace)) {', '} else if matches!(parts.last(), Some(TemplatePart::Whitespace | TemplatePart::LiteralChar(\' \'))) {')], BUG),
 ('named args dedupe', [(B, '''                } else {
                    Some((arg.name_id, arg.value))
                }''', '''                } else if matches!(arg.value, Expr::Name(Name::Simple(ref n)) if n.name_id == arg.name_id) {
                    None
                } else {
                    Some((arg.name_id, arg.value))
                }''')], BUG),
 # kind
 ('name in text is expr', [(B, '''            TokenKind::FuncName |
            TokenKind::Keyword(..) |''', '''            TokenKind::FuncName |
            TokenKind::Number |
            TokenKind::Keyword(..) |''')], BUG),
 ('verbatim unit', [(B, 'TokenKind::Verbatim(..) => Ok(Expr::Verbatim(tok.range)),', 'TokenKind::Verbatim(..) => Ok(Expr::BareString(tok.range)),')], BUG),
 ('newline as whitespace', [(B, 'TokenKind::Newline => Ok(AST::ParagraphBreak(tok.range)),', 'TokenKind::Newline => Ok(AST::Whitespace(tok.range)),')], BUG),
 ('empty list is unit', [(B, '''        Ok(Expr::List(''', '''        if children.is_empty() { return Ok(Expr::Unit(open.range.to_end(close.range.end))); }
        Ok(Expr::List(''')], BUG),
 ('match underscore var', [(M, 'TokenKind::Dot => Ok(MatchPattern::LiteralNone(tok.range)),', 'TokenKind::Dot => Ok(MatchPattern::Ignore(tok.range)),')], BUG),
 ('keyword implicit refused', [(B, '''                Keyword::Implicit |
                Keyword::Let => {''', '''                Keyword::Implicit => Err(self.report(SyntaxError::ExpectedExpr, tok.range)),
                Keyword::Let => {''')], BUG),
 ('angle', [(B, '''            TokenKind::LAngle if self.has_next(|t| matches!(t.kind, TokenKind::Name | TokenKind::VarName | TokenKind::ExclamationMark)) => {
                self.parse_tag(tok)
                    .map(AST::Expr)''', '''            TokenKind::LAngle if self.has_next(|t| matches!(t.kind, TokenKind::Name | TokenKind::VarName)) => {
                self.parse_tag(tok)
                    .map(AST::Expr)''')], BUG),
 # flags
 ('question mark lost with type', [(F, 'question_mark: question_mark.is_some(),', 'question_mark: question_mark.is_some() && type_annotation != Type::Any,')], {}),
 ('question const', [(F, 'question_mark: question_mark.is_some(),', 'question_mark: question_mark.is_some() || spread_kind != SpreadKind::NoSpread,')], BUG),
 ('attr question', [(G, 'question_mark: question_mark.is_some(),', 'question_mark: question_mark.is_none(),')], BUG),
 ('index never coalesces', [(B, '''                name = Name::Index(Box::new(IndexName {
                    subject: name,
                    is_coalescing,''', '''                name = Name::Index(Box::new(IndexName {
                    is_coalescing: is_coalescing && !name.is_coalescing(),
                    subject: name,''')], {}),
 ('coalescing flipped', [(B, 'tok.kind == TokenKind::QuestionMarkDoubleColon;', 'tok.kind == TokenKind::DoubleColon;')], BUG),
 ('let implicit', [(B, 'is_implicit: at.kind == TokenKind::Keyword(Keyword::Implicit),', 'is_implicit: at.kind != TokenKind::Keyword(Keyword::Let),')], BUG),
 ('let implicit export', [(B, 'is_implicit: at.kind == TokenKind::Keyword(Keyword::Implicit),', 'is_implicit: at.kind == TokenKind::Keyword(Keyword::Implicit) && !is_export,')], OK),
 ('fence kind', [(B, 'k == VerbatimKind::Multiline', 'k == VerbatimKind::Simple')], BUG),
 ('list item spread', [(B, 'arg.spread_kind == SpreadKind::Positional)', 'arg.spread_kind != SpreadKind::NoSpread)')], {}),
 ('list item spread named', [(B, 'arg.spread_kind == SpreadKind::Positional)', 'arg.spread_kind == SpreadKind::Named)')], BUG),
 ('arg spread of name', [(F, '''                spread_kind,
                name_id: str_ids::ANONYMOUS,
                value: Expr::BareString(name_tok.range),''', '''                spread_kind: SpreadKind::NoSpread,
                name_id: str_ids::ANONYMOUS,
                value: Expr::BareString(name_tok.range),''')], BUG),
 ('arg bare name named', [(F, '''                name_id: str_ids::ANONYMOUS,
                value: Expr::BareString(name_tok.range),''', '''                name_id: self.tok_name_id(name_tok),
                value: Expr::BareString(name_tok.range),''')], BUG),
 ('ellipsis one', [(M, '''            return Ok(PositionalMatchPattern::Spread(MatchPattern::Ignore(tok.range)));''', '''            return Ok(PositionalMatchPattern::One(MatchPattern::Ignore(tok.range)));''')], BUG),
 # counts
 ('spread counted', [(F, '''                        named_count += 1;
                        any_named_params = true;''', '''                        if !param.is_implicit { named_count += 1; }
                        any_named_params = true;''')], BUG),
 ('underscore counted', [(F, 'else { is_underscore };', 'else { is_underscore && !param.question_mark };')], BUG),
 ('positional spread lost', [(F, 'positional_spread = true;', 'positional_spread = !param.question_mark;')], {}),
 ('content first', [(F, 'params.push(c);', 'params.insert(0, c);')], BUG),
 ('has content spread', [(F, '(true, range)\n', '(c_anon, range)\n'), (F, 'params.push(c);', 'let c_anon = !c.is_implicit; params.push(c);')], {}),
 # order
 ('or swapped', [(M, 'let pair = (p, q);', 'let pair = (q, p);')], BUG),
 ('typed swapped', [(M, 'let pair = (type_pattern, pattern);', 'let pair = (pattern, type_pattern);')], BUG),
 ('args rev', [(F, 'let args = self.parse_args()?.into_boxed_slice();', 'let mut args = self.parse_args()?; args.reverse(); let args = args.into_boxed_slice();')], BUG),
 ('params front', [(F, '                params.push(param);', '                if is_spread { params.insert(0, param); } else { params.push(param); }')], BUG),
 ('spread index', [(M, 'spread_index = Some(i as u32);', 'spread_index = Some(i as u32 + 1);')], BUG),
 ('spread index last', [(M, 'spread_index = Some(i as u32);', 'spread_index = Some(0);')], BUG),
 ('spread exact', [(M, 'Some(spread_index) => if is_list {\n', 'Some(spread_index) => if is_list && child_patterns.len() == 1 { MatchPattern::ExactList(range, child_patterns) } else if is_list {\n')], {}),
 # names
 ('func name whole', [(B, 'TokenKind::FuncName | TokenKind::VarName => &s[1..],', 'TokenKind::FuncName | TokenKind::VarName => s.trim_start_matches(|c| c == \'$\' || c == \'@\' || c == \'_\'),')], {}),
 ('name cut', [(B, '            TokenKind::Name => s,\n            TokenKind::FuncName', '            TokenKind::Name => s.strip_prefix("_").unwrap_or(s),\n            TokenKind::FuncName')], {}),
 ('name cut 1', [(B, '            TokenKind::Name => s,\n            TokenKind::FuncName', '            TokenKind::Name => if s.len() > 64 { &s[..64] } else { s },\n            TokenKind::FuncName')], BUG),
 ('attr lower', [(G, 'let name_id = self.tok_name_id(name_tok);', 'let name_id = self.tok_lowercase_name_id(name_tok);')], BUG),
 # same behaviour
 ('ok helper param', [(F, '''        let p = Param {
            range,
            name_id,
            question_mark: question_mark.is_some(),
            is_implicit,
            type_annotation,
            default_value: default_value.map(Box::new),
        };
        Ok((p, spread_kind, underscore))
    }''', '''        Ok((Self::make_param(range, name_id, question_mark, is_implicit, type_annotation, default_value), spread_kind, underscore))
    }
    
    fn make_param(range: SourceRange, name_id: crate::utils::NameID, q: Option<Token>, is_implicit: bool, type_annotation: Type, default_value: Option<Expr>) -> Param {
        let question_mark = q.is_some();
        Param { default_value: default_value.map(Box::new), range, name_id, question_mark, is_implicit, type_annotation }
    }''')], OK),
 ('ok for loop', [(B, '''        while matches!(nodes.last(), Some(node) if node.is_whitespace()) {
            nodes.pop();
        }''', '''        loop {
            match nodes.last() {
                Some(node) if node.is_whitespace() => { nodes.pop(); },
                _ => break,
            }
        }''')], OK),
 ('ok match instead of map', [(B, '''                self.parse_func_call(tok)
                    .map(Box::new)
                    .map(Expr::FuncCall)''', '''                let call = self.parse_func_call(tok)?;
                Ok(Expr::FuncCall(Box::new(call)))''')], OK),
 ('ok let implicit matches', [(B, 'is_implicit: at.kind == TokenKind::Keyword(Keyword::Implicit),', 'is_implicit: matches!(at.kind, TokenKind::Keyword(Keyword::Implicit)),')], OK),
 ('ok list helper', [(B, '''            |_self| {
                let arg = _self.parse_arg()?;
                if arg.spread_kind == SpreadKind::Named {
                    _self.report(SyntaxError::SpreadNamedNotAllowed, arg.range);
                } else if !arg.is_positional() {
                    _self.report(SyntaxError::ArgNamedNotAllowed, arg.range);
                }
                Ok((arg.value, arg.spread_kind == SpreadKind::Positional))
            },''', '''            Parser::parse_item,'''), (B, '''    fn parse_export(&mut self, at: Token)''', '''    fn parse_item(&mut self) -> Reported<(Expr, bool)> {
        let arg = self.parse_arg()?;
        match arg.spread_kind {
            SpreadKind::Named => { self.report(SyntaxError::SpreadNamedNotAllowed, arg.range); },
            _ if !arg.is_positional() => { self.report(SyntaxError::ArgNamedNotAllowed, arg.range); },
            _ => {},
        }
        let spread = matches!(arg.spread_kind, SpreadKind::Positional);
        Ok((arg.value, spread))
    }
    
    fn parse_export(&mut self, at: Token)''')], OK),
 ('ok group split', [(B, '''        let range = Parser::seq_range(open, &children, close);
        if children.is_empty() {
            Expr::Unit(range)
        } else {
            Expr::Group(children.into_boxed_slice(), range)
        }''', '''        let range = Parser::seq_range(open, &children, close);
        if !children.is_empty() {
            return Expr::Group(children.into(), range);
        }
        Expr::Unit(range)''')], OK),
 ('ok pattern vec', [(M, '''        let child_patterns: Box<[MatchPattern]> = children.into_iter()
            .enumerate()
            .map(|(i, child)| match child {
                PositionalMatchPattern::One(child) => child,
                PositionalMatchPattern::Spread(child) => {
                    if spread_index.is_some() {
                        self.report(SyntaxError::PatternMultipleSpreads, child.range());
                    }
                    spread_index = Some(i as u32);
                    child
                }
            })
            .collect();''', '''        let mut child_patterns = Vec::with_capacity(children.len());
        for (i, child) in children.into_iter().enumerate() {
            let child = match child {
                PositionalMatchPattern::One(child) => child,
                PositionalMatchPattern::Spread(child) => {
                    if spread_index.is_some() {
                        self.report(SyntaxError::PatternMultipleSpreads, child.range());
                    }
                    spread_index = Some(i as u32);
                    child
                }
            };
            child_patterns.push(child);
        }
        let child_patterns = child_patterns.into_boxed_slice();''')], OK),
 ('ok signature match', [(F, '''                match (is_positional, is_spread) {
                    (false, false) => {
                        named_count += 1;
                        any_named_params = true;
                        any_optional_named_params |= !is_required;
                    },
                    (true, false) => {
                        positional_count += 1;
                        any_optional_params |= !is_required;
                    },''', '''                match (is_positional, is_spread) {
                    (positional, false) => {
                        if positional {
                            positional_count += 1;
                            if !is_required { any_optional_params = true; }
                        } else {
                            any_named_params = true;
                            if !is_required { any_optional_named_params = true; }
                            named_count += 1;
                        }
                    },''')], OK),
 ('ok tag build', [(G, '''        let mut tag = Tag {
            range: langle.range.to_end(rangle.range.end),
            name,
            attrs: attrs.into_boxed_slice(),
            children: Box::from([]),
        };
''', '''        let mut range = langle.range.to_end(rangle.range.end);
        let mut children = Vec::new();
'''), (G, '''            let (children, Some(close)) = self.parse_nodes_until(|_self, tok| _self.is_close_tag(tok, name_id)) else {
                return Err(self.report(SyntaxError::TagUnmatchedOpen, tag.range));
            };
            tag.range.end = close.range.end;
            tag.children = children.into_boxed_slice();
        }
        Ok(Expr::Tag(Box::new(tag)))''', '''            match self.parse_nodes_until(|_self, tok| _self.is_close_tag(tok, name_id)) {
                (c, Some(close)) => {
                    children = c;
                    range.end = close.range.end;
                },
                _ => return Err(self.report(SyntaxError::TagUnmatchedOpen, range)),
            }
        }
        Ok(Expr::Tag(Box::new(Tag {range, name, attrs: attrs.into_boxed_slice(), children: children.into_boxed_slice()})))''')], OK),
 ('ok name if', [(B, '''            let is_coalescing = tok.kind == TokenKind::QuestionMarkDoubleColon;
''', '''            let is_coalescing = match tok.kind { TokenKind::DoubleColon => false, _ => true };
''')], OK),
 ('literal over brace', [('src/parser/template.rs', 'if range.end == tok.range.start =>', 'if range.end <= tok.range.start =>')], BUG),
 ('literal any', [('src/parser/template.rs', 'Some(TemplatePart::Literal(range)) if range.end == tok.range.start =>', 'Some(TemplatePart::Literal(range)) =>')], BUG),
 ('nbsp popped', [('src/parser/ast.rs', 'AST::Char(c, ..) => c.is_ascii_whitespace(),', 'AST::Char(c, ..) => c.is_whitespace(),')], BUG),
 ('or one side', [('src/parser/matcher.rs', '            q.get_name_ids(&mut name_ids);\n', '')], BUG),
 ('dict spread names', [('src/parser/ast.rs', """                if let Some(spread) = &dict_pattern.spread {
                    spread.get_name_ids(out);
                }
""", '')], BUG),
 ('regex names skip', [('src/parser/ast.rs', 'r.names.iter().map(|name| name.name_id)', 'r.names.iter().skip(1).map(|name| name.name_id)')], BUG),
 ('html seq names', [('src/parser/ast.rs', """                for child in children.iter() {
                    child.get_name_ids(out);
                }
            },
            MatchPattern::Dict""", """                for child in children.iter().filter(|c| !matches!(c, MatchPattern::Tag(..))) {
                    child.get_name_ids(out);
                }
            },
            MatchPattern::Dict""")], BUG),
 ('tag content names', [('src/parser/ast.rs', '                tag_pattern.content.get_name_ids(out);\n', '')], BUG),
 ('typeof names', [('src/parser/ast.rs', """            MatchPattern::VarName(name) |
            MatchPattern::TypeOf(name) => {
                out""", """            MatchPattern::VarName(name) => {
                out""")], BUG),
 ('ok names for_each', [('src/parser/ast.rs', """                for child in children.iter() {
                    child.get_name_ids(out);
                }
            },
            MatchPattern::Dict""", """                children.iter().for_each(|child| child.get_name_ids(out));
            },
            MatchPattern::Dict""")], OK),
 ('ok names and', [('src/parser/ast.rs', """                pair.0.get_name_ids(out);
                pair.1.get_name_ids(out);
            },
            MatchPattern::Or""", """                let (a, b) = &**pair;
                b.get_name_ids(out);
                a.get_name_ids(out);
            },
            MatchPattern::Or""")], OK),
 ('ok literal if', [('src/parser/template.rs', """                _ => match parts.last_mut() {
                    Some(TemplatePart::Literal(range)) if range.end == tok.range.start => {
                        range.end = tok.range.end;
                    },
                    _ => {
                        parts.push(TemplatePart::Literal(tok.range));
                    },
                },
""", """                _ => {
                    if let Some(TemplatePart::Literal(range)) = parts.last_mut() {
                        if tok.range.start == range.end {
                            range.end = tok.range.end;
                            continue;
                        }
                    }
                    parts.push(TemplatePart::Literal(tok.range));
                },
""")], OK),
]

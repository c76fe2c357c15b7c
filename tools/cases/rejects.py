# lists whose items must fit together, and items that are ill-formed in themselves
F = 'src/parser/func.rs'
M = 'src/parser/matcher.rs'
TG = 'src/parser/tag.rs'
B = 'src/parser/base.rs'
B1, OK = {'P34': 1}, {'P34': 0}
CASES = [
 ('args: named spread forgotten', [(F, '''            } else if arg.spread_kind == SpreadKind::Named {
                any_named = true;
            } else if any_named {''', '''            } else if arg.spread_kind == SpreadKind::Named {
            } else if any_named {''')], B1),
 ('args: positional spread after named', [(F, '            } else if any_named {\n', '            } else if any_named && arg.spread_kind == SpreadKind::NoSpread {\n')], B1),
 ('args: duplicate only when adjacent', [(F, '''            if !arg.name_id.is_anonymous() {
                if !names_used.insert''', '''            if !arg.name_id.is_anonymous() {
                if !any_named { names_used.insert(arg.name_id); } else if !names_used.insert''')], OK),
 ('args: duplicates unless first', [(F, 'if !names_used.insert(arg.name_id) {\n                    let name = self.string_pool.get(arg.name_id);', 'if any_named && names_used.contains(&arg.name_id) {\n                    let name = self.string_pool.get(arg.name_id);')], B1),
 ('args: two loops', [(F, '''        for arg in args.iter() {
            if !arg.name_id.is_anonymous() {
                if !names_used.insert(arg.name_id) {
                    let name = self.string_pool.get(arg.name_id);
                    self.report(SyntaxError::ArgDuplicateName(name), arg.range);
                }
                any_named = true;
            } else if''', '''        for arg in args.iter().filter(|a| !a.name_id.is_anonymous()) {
            if !names_used.insert(arg.name_id) {
                let name = self.string_pool.get(arg.name_id);
                self.report(SyntaxError::ArgDuplicateName(name), arg.range);
            }
        }
        for arg in args.iter() {
            if !arg.name_id.is_anonymous() {
                any_named = true;
            } else if''')], OK),
 ('args: match', [(F, '''            } else if arg.spread_kind == SpreadKind::Named {
                any_named = true;
            } else if any_named {
                self.report(SyntaxError::ArgPositionalAfterNamed, arg.range);
            }''', '''            } else {
                match arg.spread_kind {
                    SpreadKind::Named => any_named = true,
                    _ if any_named => { self.report(SyntaxError::ArgPositionalAfterNamed, arg.range); },
                    _ => {},
                }
            }''')], OK),
 ('params: optional state', [(F, 'any_optional_params |= !is_required;', 'any_optional_params = !is_required;')], OK),
 ('params: optional named by question mark only', [(F, 'any_optional_named_params |= !is_required;', 'any_optional_named_params |= param.question_mark;')], B1),
 ('params: required', [(F, 'spread_kind == SpreadKind::NoSpread && !param.question_mark && param.default_value.is_none();', 'spread_kind == SpreadKind::NoSpread && !param.question_mark;')], B1),
 ('params: optional of either', [(F, '(if is_positional { any_optional_params } else { any_optional_named_params })', '(any_optional_params || any_optional_named_params)')], B1),
 ('params: after spread', [(F, '(is_positional && positional_spread) || (!is_positional && named_spread)', 'is_spread && ((is_positional && positional_spread) || (!is_positional && named_spread))')], B1),
 ('params: spread is named', [(F, '''                        any_named_params = true;
                        named_spread = true;''', '''                        named_spread = true;''')], B1),
 ('params: duplicates of named', [(F, 'if !names_used.insert(param.name_id) {', 'if !is_positional && !names_used.insert(param.name_id) {')], B1),
 ('params: implicit default', [(F, '} else if param.is_implicit && param.default_value.is_some() {', '} else if param.is_implicit && param.default_value.is_some() && !any_named_params {')], B1),
 ('params: implicit spread', [(F, '} else if is_spread && param.is_implicit {', '} else if is_spread && is_positional && param.is_implicit {')], B1),
 ('params: underscore of a named spread', [(F, '                        if is_underscore {\n', '                        if is_underscore && any_named_params {\n')], B1),
 ('params: struct of flags', [(F, '''            let mut any_named_params = false;
            let mut any_optional_params = false;
            let mut any_optional_named_params = false;
''', '''            let (mut any_named_params, mut any_optional_params, mut any_optional_named_params) = (false, false, false);
'''), (F, 'any_optional_params |= !is_required;', 'if !is_required { any_optional_params = true; }')], OK),
 ('params: counted', [(F, '} else if is_positional && any_named_params {', '} else if is_positional && (named_count > 0 || named_spread) {')], OK),
 ('content: spread', [(F, 'else if spread_kind != SpreadKind::NoSpread {\n                self.report(SyntaxError::ParamContentSpread', 'else if spread_kind == SpreadKind::Positional {\n                self.report(SyntaxError::ParamContentSpread')], B1),
 ('content: default', [(F, '} else if let Some(value) = c.default_value.as_ref() {', '} else if let Some(value) = c.default_value.as_ref().filter(|_| lpar.is_some()) {')], B1),
 ('content: duplicate', [(F, 'if names_used.contains(&c.name_id) {', 'if positional_count > 0 && names_used.contains(&c.name_id) {')], B1),
 ('argument: spread with a name', [(F, 'if let Some(spread_range) = spread_range {', 'if let (Some(spread_range), SpreadKind::Positional) = (spread_range, spread_kind) {')], B1),
 ('parameter: spread with a default', [(F, 'if default_value.is_some() && spread_kind != SpreadKind::NoSpread {', 'if default_value.is_some() && spread_kind == SpreadKind::Named {')], B1),
 ('function: without a name', [(F, 'if name_id.is_anonymous() && !allow_anonymous {', 'if name_id.is_anonymous() && !allow_anonymous && signature.params.is_empty() {')], B1),
 ('let: positional', [(B, '} else if arg.is_positional() {', '} else if arg.is_positional() && !arg.value.is_literal() {')], B1),
 ('let: literal', [(B, 'if child.is_literal() && !is_export {', 'if child.is_literal() && !is_export && vars.len() > 1 {')], B1),
 ('let: nothing', [(B, 'if args.is_empty() {\n            return Err(self.report(SyntaxError::DeclMissingArgs', 'if args.is_empty() && at.kind == TokenKind::Keyword(Keyword::Let) {\n            return Err(self.report(SyntaxError::DeclMissingArgs')], B1),
 ('let: loop', [(B, '''        Ok(args.into_iter()
            .filter_map(|arg| {
                if arg.is_spread() {
                    let e = if arg.is_positional() { SyntaxError::SpreadPositionalNotAllowed } else { SyntaxError::SpreadNamedNotAllowed };
                    self.report(e, arg.range);
                    None
                } else if arg.is_positional() {
                    self.report(SyntaxError::DeclPositionalArg, arg.range);
                    None
                } else {
                    Some((arg.name_id, arg.value))
                }
            })
            .collect())''', '''        let mut vars = Vec::new();
        for arg in args {
            let e = match (arg.is_spread(), arg.is_positional()) {
                (true, true) => SyntaxError::SpreadPositionalNotAllowed,
                (true, false) => SyntaxError::SpreadNamedNotAllowed,
                (false, true) => SyntaxError::DeclPositionalArg,
                (false, false) => { vars.push((arg.name_id, arg.value)); continue; },
            };
            self.report(e, arg.range);
        }
        Ok(vars.into_boxed_slice())''')], OK),
 ('dict pattern: after a spread', [(M, '                    if spread.is_some() {\n                        self.report(SyntaxError::PatternNamedAfterSpread', '                    if spread.is_some() && !attrs.is_empty() {\n                        self.report(SyntaxError::PatternNamedAfterSpread')], B1),
 ('dict pattern: two spreads', [(M, '                    if spread.is_some() {\n                        self.report(SyntaxError::ParamMultipleSpread', '                    if spread.is_some() && !simplify {\n                        self.report(SyntaxError::ParamMultipleSpread')], B1),
 ('list pattern: two spreads', [(M, '                    if spread_index.is_some() {', '                    if spread_index.is_some() && open.kind == TokenKind::LSqb {')], B1),
 ('tag: duplicate attribute', [(TG, '                if !names_used.insert(attr.name_id) {', '                if !names_used.insert(attr.name_id) && attr.value.is_some() {')], B1),
 ('tag: duplicates by contains', [(TG, '''                if !names_used.insert(attr.name_id) {
                    let name = self.string_pool.get(attr.name_id);
                    self.report(SyntaxError::TagDuplicateAttr(name), attr.range);
                }''', '''                if names_used.contains(&attr.name_id) {
                    let name = self.string_pool.get(attr.name_id);
                    self.report(SyntaxError::TagDuplicateAttr(name), attr.range);
                } else {
                    names_used.insert(attr.name_id);
                }''')], OK),
]

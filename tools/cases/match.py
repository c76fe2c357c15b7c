F = 'src/compiler/frame.rs'
M = 'src/compiler/matcher.rs'
PM = 'src/parser/matcher.rs'
AST = 'src/parser/ast.rs'
BUG = {'P16': 1}
OK = {'P16': 0, 'P14': 0, 'P15': 0}
LOOP = '''        for (pattern, handler) in match_.branches.iter() {
            let frame = self.frame()
                .to_inactive()
                .new_empty_child_frame();
            let r = self.evaluate_in_frame(frame, |_self| {
                _self.bind_pattern(pattern, value.clone())
                    .then(|| _self.evaluate_node(handler, type_hint))
            });
            if let Some(r) = r { return r; }
        }
'''
ORARM = '''                let r = self.bind_pattern(left, value.clone())
                    || { self.frame().unset_all(name_ids); self.bind_pattern(right, value) };
                if r {
                    self.frame().set_all_if_not_present(name_ids, Value::UNIT);
                }
                r
'''
BINDALL = '''        patterns.iter()
            .zip(values)
            .all(|(p, v)| self.bind_pattern(p, v))
'''
SPREADEND = '''        self.bind_all(pre_patterns, (0..i).map(&f_one))
            && self.bind_pattern(spread_pattern, f_slice(i, j))
            && self.bind_all(post_patterns, (j..values_len).map(f_one))
'''
DICT = M and '''                for (name_id, child_pattern) in dict_pattern.attrs.iter() {
                    let Some(child_value) = dict_value.get(name_id) else { return false; };
                    if !self.bind_pattern(child_pattern, child_value.clone()) { return false; }
                }
'''
REST = '''                        let remaining: Dict = dict_value.iter()
                            .filter(|(&k, _)| !dict_pattern.attrs.contains_key(&k))
                            .map(|(&k, v)| (k, v.clone()))
                            .collect();
'''
CASES = [
 ('handler outside', [(M, LOOP, LOOP.replace('''let r = self.evaluate_in_frame(frame, |_self| {
                _self.bind_pattern(pattern, value.clone())
                    .then(|| _self.evaluate_node(handler, type_hint))
            });
            if let Some(r) = r { return r; }''', '''let r = self.evaluate_in_frame(frame, |_self| _self.bind_pattern(pattern, value.clone()));
            if r { return self.evaluate_node(handler, type_hint); }'''))], BUG),
 ('one shared frame', [(M, LOOP, '''        let frame = self.frame().to_inactive().new_empty_child_frame();
        let r = self.evaluate_in_frame(frame, |_self| {
            for (pattern, handler) in match_.branches.iter() {
                if _self.bind_pattern(pattern, value.clone()) { return Some(_self.evaluate_node(handler, type_hint)); }
            }
            None
        });
        if let Some(r) = r { return r; }
''')], BUG),
 ('reverse branches', [(M, 'in match_.branches.iter() {', 'in match_.branches.iter().rev() {')], BUG),
 ('skip failing handler', [(M, 'if let Some(r) = r { return r; }', 'if let Some(Ok(r)) = r { return Ok(r); }')], BUG),
 ('no match gives unit', [(M, 'Err(self.report(errors::RuntimeError::NoMatchingBranch, match_.range))', '{ if match_.branches.is_empty() { return Ok(Value::UNIT); } Err(self.report(errors::RuntimeError::NoMatchingBranch, match_.range)) }')], BUG),
 ('and only left', [(M, '''self.bind_pattern(left, value.clone())
                    && self.bind_pattern(right, value)''', '''{ let r = self.bind_pattern(left, value.clone());
                    self.bind_pattern(right, value); r }''')], BUG),
 ('or no unset', [(M, '{ self.frame().unset_all(name_ids); self.bind_pattern(right, value) }', 'self.bind_pattern(right, value)')], BUG),
 ('or no fill', [(M, 'if r {\n', 'if r && name_ids.len() > 1 {\n')], BUG),
 ('list zip lengths', [(M, 'child_patterns.len() == child_values.len()', 'child_patterns.len() >= child_values.len()')], BUG),
 ('html len', [(M, 'html_nodes.len() == child_patterns.len()', 'html_nodes.len() <= child_patterns.len()')], BUG),
 ('any', [(M, '.all(|(p, v)| self.bind_pattern(p, v))', '.any(|(p, v)| self.bind_pattern(p, v))')], BUG),
 ('spread too short', [(M, 'if values_len + 1 < patterns.len() { return false; }', 'if values_len < patterns.len() { return false; }')], BUG),
 ('spread post index', [(M, 'self.bind_all(post_patterns, (j..values_len).map(f_one))', 'self.bind_all(post_patterns, (i + 1..values_len).map(f_one))')], BUG),
 ('spread slice end', [(M, 'f_slice(i, j)', 'f_slice(i, values_len)')], BUG),
 ('spread slice pats', [(M, 'let post_patterns = &patterns[i + 1..];', 'let post_patterns = &patterns[i..];')], BUG),
 ('dict no len', [(M, 'if dict_pattern.spread.is_none() && dict_value.len() != dict_pattern.attrs.len() { return false; }', 'if dict_pattern.spread.is_none() && dict_value.len() < dict_pattern.attrs.len() { return false; }')], BUG),
 ('dict len with spread', [(M, 'if dict_pattern.spread.is_none() && dict_value.len()', 'if dict_value.len()')], BUG),
 ('dict missing ok', [(M, 'let Some(child_value) = dict_value.get(name_id) else { return false; };', 'let Some(child_value) = dict_value.get(name_id) else { continue; };')], BUG),
 ('dict rest all', [(M, '.filter(|(&k, _)| !dict_pattern.attrs.contains_key(&k))\n', '')], BUG),
 ('dict rest inverted', [(M, '!dict_pattern.attrs.contains_key(&k)', 'dict_pattern.attrs.contains_key(&k)')], BUG),
 ('dict rest result ignored', [(M, 'if !self.bind_pattern(spread_pattern, remaining.into()) { return false; }', 'self.bind_pattern(spread_pattern, remaining.into());')], BUG),
 ('tag content unchecked', [(M, '''self.bind_pattern(&tag_pattern.attrs, vs.into())
                    && self.bind_pattern(&tag_pattern.content, tag_value.content.clone().into())''', '''self.bind_pattern(&tag_pattern.attrs, vs.into())
                    && (tag_value.content.is_empty() || self.bind_pattern(&tag_pattern.content, tag_value.content.clone().into()))''')], BUG),
 ('tag name ignored', [(M, 'if !self.bind_pattern(&tag_pattern.name, tag_name.into()) { return false; }', 'self.bind_pattern(&tag_pattern.name, tag_name.into());')], BUG),
 ('regex offset', [(M, '''.skip(1)
                    .zip(''', '''.zip(''')], BUG),
 ('typed html', [(M, 'ast::MatchPattern::Typed(.., type_) => type_.check_value(value),', 'ast::MatchPattern::Typed(.., type_) => type_.check_value(value.clone()) || matches!(type_, Type::Function),')], BUG),
 ('equals true on error', [(M, '.map_or(false, |other| value == other)', '.map_or(true, |other| value == other)')], BUG),
 ('none negated', [(M, 'LiteralNone(..) => value.is_unit()', 'LiteralNone(..) => !value.is_unit()')], BUG),
 ('literal name', [(M, 'matches!(value, Value::Str(s) if s == self.get_name(*name_id))', 'matches!(value, Value::Str(s) if s.as_ref().eq_ignore_ascii_case(self.get_name(*name_id).as_ref()))')], BUG),
 ('typeof binds value', [(M, 'self.bind_one(t_var, t);', 'self.bind_one(t_var, { let _: Value = t; value });')], BUG),
 ('names left only', [(AST, 'other', 'other')], {}),
 # refactorings
 ('for all', [(M, BINDALL, '''        for (p, v) in patterns.iter().zip(values) {
            if !self.bind_pattern(p, v) { return false; }
        }
        true
''')], OK),
 ('spread ifs', [(M, SPREADEND, '''        if !self.bind_all(pre_patterns, (0..i).map(&f_one)) { return false; }
        let middle = f_slice(i, j);
        if !self.bind_pattern(spread_pattern, middle) { return false; }
        self.bind_all(post_patterns, (j..values_len).map(f_one))
''')], OK),
 ('spread split', [(M, '''        let post_patterns = &patterns[i + 1..];
''', '''        let (_, post_patterns) = patterns.split_at(i + 1);
''')], OK),
 ('spread j', [(M, 'let j = values_len - post_patterns.len();', 'let after = patterns.len() - 1 - i;\n        let j = values_len - after;')], OK),
 ('or ifs', [(M, ORARM, '''                let mut matched = self.bind_pattern(left, value.clone());
                if !matched {
                    self.frame().unset_all(name_ids);
                    matched = self.bind_pattern(right, value);
                }
                if !matched { return false; }
                self.frame().set_all_if_not_present(name_ids, Value::UNIT);
                true
''')], OK),
 ('loop match', [(M, LOOP, LOOP.replace('''                _self.bind_pattern(pattern, value.clone())
                    .then(|| _self.evaluate_node(handler, type_hint))
''', '''                if _self.bind_pattern(pattern, value.clone()) {
                    Some(_self.evaluate_node(handler, type_hint))
                } else {
                    None
                }
'''))], OK),
 ('loop helper', [(M, LOOP, '''        for branch in match_.branches.iter() {
            if let Some(r) = self.try_branch(branch, &value, type_hint) { return r; }
        }
'''), (M, '    fn bind_pattern(', '''    fn try_branch(&mut self, (pattern, handler): &(ast::MatchPattern, ast::Expr), value: &Value, type_hint: &Type) -> Option<errors::Reported<Value>> {
        let frame = self.frame().to_inactive().new_empty_child_frame();
        self.evaluate_in_frame(frame, |_self| {
            let matched = _self.bind_pattern(pattern, value.clone());
            matched.then(|| _self.evaluate_node(handler, type_hint))
        })
    }
    
    fn bind_pattern(''')], OK),
 ('find_map', [(M, LOOP, '''        let found = match_.branches.iter().find_map(|(pattern, handler)| {
            let frame = self.frame().to_inactive().new_empty_child_frame();
            self.evaluate_in_frame(frame, |_self| {
                _self.bind_pattern(pattern, value.clone())
                    .then(|| _self.evaluate_node(handler, type_hint))
            })
        });
        if let Some(r) = found { return r; }
''')], OK),
 ('dict helper', [(M, '''                for (name_id, child_pattern) in dict_pattern.attrs.iter() {
                    let Some(child_value) = dict_value.get(name_id) else { return false; };
                    if !self.bind_pattern(child_pattern, child_value.clone()) { return false; }
                }
''', '''                if !self.bind_attrs(dict_pattern, dict_value.as_ref()) { return false; }
'''), (M, '    fn bind_all_with_spread(', '''    fn bind_attrs(&mut self, pattern: &ast::DictMatchPattern, values: &Dict) -> bool {
        for (name_id, child_pattern) in pattern.attrs.iter() {
            match values.get(name_id) {
                Some(v) if self.bind_pattern(child_pattern, v.clone()) => {},
                _ => return false,
            }
        }
        true
    }
    
    fn bind_all_with_spread(''')], OK),
 ('dict all', [(M, '''                for (name_id, child_pattern) in dict_pattern.attrs.iter() {
                    let Some(child_value) = dict_value.get(name_id) else { return false; };
                    if !self.bind_pattern(child_pattern, child_value.clone()) { return false; }
                }
''', '''                let ok = dict_pattern.attrs.iter().all(|(name_id, child_pattern)| {
                    dict_value.get(name_id).map_or(false, |v| self.bind_pattern(child_pattern, v.clone()))
                });
                if !ok { return false; }
''')], OK),
 ('rest loop', [(M, REST, '''                        let mut remaining = Dict::default();
                        for (&k, v) in dict_value.iter() {
                            if dict_pattern.attrs.contains_key(&k) { continue; }
                            remaining.insert(k, v.clone());
                        }
''')], OK),
 ('tag helper', [(M, '''                let vs: Dict = tag_value.attributes
                    .iter()
                    .map(|(&k, v)| (
                        k,
                        v.clone().map_or(Value::UNIT, Value::from),
                    ))
                    .collect();
''', '''                let mut vs = Dict::default();
                for (&k, v) in tag_value.attributes.iter() {
                    let v = match v {
                        Some(v) => Value::from(v.clone()),
                        None => Value::UNIT,
                    };
                    vs.insert(k, v);
                }
''')], OK),
 ('regex index', [(M, '''                let match_ = match_.iter()
                    .skip(1)
                    .zip(regex_pattern.names.iter());
                
                for (s, var) in match_ {
                    let v = s.map_or(Value::UNIT, |m| m.as_str().into());
                    self.bind_one(var, v);
                }
''', '''                for (i, var) in regex_pattern.names.iter().enumerate() {
                    let v = match match_.get(i + 1) {
                        Some(m) => m.as_str().into(),
                        None => Value::UNIT,
                    };
                    self.bind_one(var, v);
                }
''')], OK),
 ('exact list flip', [(M, '''                child_patterns.len() == child_values.len()
                    && self.bind_all(child_patterns, child_values.as_ref().iter().cloned())
''', '''                if child_values.len() != child_patterns.len() { return false; }
                self.bind_all(child_patterns, child_values.as_ref().iter().cloned())
''')], OK),
 ('match value', [(M, 'let Value::HTML(HTML::Tag(tag_value)) = value else { return false; };', '''let tag_value = match value {
                    Value::HTML(HTML::Tag(t)) => t,
                    _ => return false,
                };''')], OK),
]

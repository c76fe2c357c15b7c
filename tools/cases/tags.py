G = 'src/compiler/tag.rs'
V = 'src/compiler/value.rs'
T = 'src/utils/text.rs'
BUG, OK = {'P28': 1}, {'P28': 0}
CASES = [
 ('attr optional flipped', [(G, 'Type::Str.option_if(attr.question_mark)', 'Type::Str.option_if(!attr.question_mark)')], BUG),
 ('attr always optional', [(G, 'Type::Str.option_if(attr.question_mark)', 'Type::Str.option_if(true)')], BUG),
 ('attr empty left out', [(G, 'if s.is_some() { self.add_attr', "if s.as_ref().map_or(false, |s| !s.is_empty()) { self.add_attr")], BUG),
 ('attr kept when none', [(G, 'if s.is_some() { self.add_attr(&mut attrs, attr.name_id, s, range)?; }', 'self.add_attr(&mut attrs, attr.name_id, s, range)?;')], BUG),
 ('attr bool dropped', [(G, 'None => { self.add_attr(&mut attrs, attr.name_id, None, range)?; }', 'None => { if !attr.question_mark && attrs.len() < 8 { self.add_attr(&mut attrs, attr.name_id, None, range)?; } }')], BUG),
 ('attr bool value', [(G, 'attr.name_id, None, range)?; }', 'attr.name_id, Some("".into()), range)?; }')], BUG),
 ('spread none dropped', [(G, 'for (k, s) in dict.into_iter() {', 'for (k, s) in dict.into_iter().filter(|x| x.1.is_some()) {')], BUG),
 ('spread rev', [(G, 'for (k, s) in dict.into_iter() {', 'for (k, s) in dict.into_iter().rev() {')], BUG),
 ('attrs rev', [(G, 'in tag.attrs.iter() {', 'in tag.attrs.iter().rev() {')], BUG),
 ('attrs limit', [(G, 'in tag.attrs.iter() {', 'in tag.attrs.iter().take(100) {')], BUG),
 ('dup silent', [(G, 'if attrs.insert(name_id, value).is_some() {', 'if attrs.insert(name_id, value).flatten().is_some() {')], BUG),
 ('dup first', [(G, 'if attrs.insert(name_id, value).is_some() {', 'if attrs.insert(name_id, value.clone()).map_or(false, |v| v != value) {')], BUG),
 ('spread dup', [(G, '''                        self.add_attr(&mut attrs, k, s, range)?;
                    }''', '''                        if !attrs.contains_key(&k) { self.add_attr(&mut attrs, k, s, range)?; }
                    }''')], BUG),
 ('spread dup err lost', [(G, '''                        self.add_attr(&mut attrs, k, s, range)?;
                    }''', '''                        attrs.insert(k, s); let _ = range;
                    }''')], BUG),
 ('swap remove', [(G, 'if attrs.insert(name_id, value).is_some() {', 'if attrs.swap_remove(&name_id).is_some() | attrs.insert(name_id, value).is_some() {')], {}),
 ('content none', [(G, 'self.compile_sequence_in_tag(&tag.children, tag_name_id)', 'self.compile_sequence_in_tag(&tag.children[..tag.children.len().min(64)], tag_name_id)')], BUG),
 ('content wrong tag', [(G, 'self.compile_sequence_in_tag(&tag.children, tag_name_id)', 'self.compile_sequence_in_tag(&tag.children, str_ids::SPAN)')], BUG),
 ('name not lower', [(G, '.insert_lowercase(name_str)', '.insert(name_str)')], BUG),
 ('name any', [(G, 'if text::is_identifier(&name_str) {', 'if !name_str.is_empty() {')], BUG),
 ('name doctype', [(G, 'name_str.eq_ignore_ascii_case("!DOCTYPE")', 'name_str.starts_with(\'!\')')], BUG),
 ('name doctype case', [(G, 'name_str.eq_ignore_ascii_case("!DOCTYPE")', '&*name_str == "!DOCTYPE"')], BUG),
 ('name constant', [(G, 'Ok(str_ids::_DOCTYPE)', 'Ok(str_ids::DIV)')], BUG),
 ('name void refused', [(G, 'if text::is_identifier(&name_str) {', 'if text::is_identifier(&name_str) && name_str.len() < 32 {')], BUG),
 ('ident start', [(T, 'Some(c) if is_ident_start(c))', 'Some(c) if is_ident_cont(c))')], BUG),
 ('ident any', [(T, '&& s_chars.all(is_ident_cont)', '&& s_chars.any(is_ident_cont)')], BUG),
 ('ident no rest', [(T, '''Some(c) if is_ident_start(c))
        && s_chars.all(is_ident_cont)''', 'Some(c) if is_ident_start(c))')], BUG),
 ('bool lower', [(V, 'Value::Bool(b) => token::Token::bool_to_string(b).into()', 'Value::Bool(b) => b.to_string().into()')], BUG),
 ('bool flipped', [(V, 'token::Token::bool_to_string(b).into()', 'token::Token::bool_to_string(!b).into()')], BUG),
 ('int abs', [(V, 'text::substitutions(&t.to_string())', 'text::substitutions(&t.saturating_abs().to_string())')], BUG),
 ('int padded', [(V, 'text::substitutions(&t.to_string())', 'text::substitutions(&format!("{t:03}"))')], BUG),
 ('str trimmed', [(V, 'Value::Str(t) => t.into(),\n            Value::Dict', 'Value::Str(t) => t.trim().into(),\n            Value::Dict')], BUG),
 ('dict filter', [(V, '                let rows = vs.iter()\n', '                let rows = vs.iter().filter(|(_, v)| !v.is_unit())\n')], BUG),
 ('dict rev', [(V, '                let rows = vs.iter()\n', '                let rows = vs.iter().rev()\n')], BUG),
 ('dict no value', [(V, 'HTML::tag(str_ids::TD, self.compile_value(v.clone())),', 'HTML::tag(str_ids::TD, self.get_name(k).into()),')], BUG),
 ('dict swap', [(V, 'HTML::tag(str_ids::TH, self.get_name(k).into())', 'HTML::tag(str_ids::TD, self.get_name(k).into())')], BUG),
 ('dict class', [(V, '.str_attr(str_ids::CLASS, "tabular-data")', '')], {}),
 ('list filter', [(V, '                    .cloned()\n                    .map(|child| self.compile_value(child).in_tag', '                    .filter(|v| !v.is_unit())\n                    .cloned()\n                    .map(|child| self.compile_value(child).in_tag')], BUG),
 ('list rev', [(V, '                    .cloned()\n                    .map(|child| self.compile_value(child).in_tag', '                    .rev()\n                    .cloned()\n                    .map(|child| self.compile_value(child).in_tag')], BUG),
 ('list no li', [(V, 'self.compile_value(child).in_tag(str_ids::LI)', 'self.compile_value(child)')], BUG),
 ('list ol', [(V, '.in_tag(str_ids::UL)\n            },', '.in_tag(str_ids::OL)\n            },')], BUG),
 ('html cut', [(V, 'Value::HTML(html) => html,\n', 'Value::HTML(html) => if html.is_whitespace() { HTML::Empty } else { html },\n')], BUG),
 ('func pre', [(V, 'HTML::tag(str_ids::CODE, format!("(@fn {name})").into())', 'HTML::tag(str_ids::SPAN, format!("(@fn {name})").into())')], BUG),
 ('func name', [(V, 'format!("(@fn {name})")', '{ let _ = name; "(@fn)".to_string() }')], BUG),
 ('regex', [(V, 'format!("(@regex {})", r.as_str())', 'format!("(@regex {})", r.as_str().trim())')], BUG),
 ('fence text', [(V, 'let str_value = self.evaluate_verbatim(range);', 'let str_value: Value = self.get_source_str(range).into();')], BUG),
 ('fence swap', [(V, 'if is_multiline { str_ids::CODE_BLOCK } else { str_ids::CODE };', 'if !is_multiline { str_ids::CODE_BLOCK } else { str_ids::CODE };')], BUG),
 ('fence hint', [(V, 'if is_multiline { Type::Block } else { Type::Inline }', 'if is_multiline { Type::Block } else { Type::HTML }')], {}),
 ('fence html', [(V, 'bind_synthetic_call(self, true, str_value)?;\n        let type_hint', 'bind_synthetic_call(self, true, Value::UNIT)?;\n        let _ = str_value;\n        let type_hint')], BUG),
 # behaviour kept
 ('ok add inline', [(G, 'if s.is_some() { self.add_attr(&mut attrs, attr.name_id, s, range)?; }', 'if let Some(s) = s { self.add_attr(&mut attrs, attr.name_id, Some(s), range)?; }')], OK),
 ('ok contains', [(G, '''        if attrs.insert(name_id, value).is_some() {
            let name''', '''        let dup = attrs.contains_key(&name_id);
        attrs.insert(name_id, value);
        if dup {
            let name''')], OK),
 ('ok if let', [(G, '''                    match attr.value.as_ref() {
                        Some(node) => {
                            let expected_type = Type::Str.option_if(attr.question_mark);
                            let s: Option<RcStr> = self.evaluate_node(node, &expected_type)?
                                .expect_convert();
                            if s.is_some() { self.add_attr(&mut attrs, attr.name_id, s, range)?; }
                        },
                        None => { self.add_attr(&mut attrs, attr.name_id, None, range)?; },
                    }''', '''                    let Some(node) = attr.value.as_ref() else {
                        self.add_attr(&mut attrs, attr.name_id, None, range)?;
                        continue;
                    };
                    let expected_type = if attr.question_mark { Type::Str.option() } else { Type::Str };
                    let s: Option<RcStr> = self.evaluate_node(node, &expected_type)?
                        .expect_convert();
                    if s.is_none() { continue; }
                    self.add_attr(&mut attrs, attr.name_id, s, range)?;''')], OK),
 ('ok table', [(V, '''                            HTML::from_iter([
                            HTML::tag(str_ids::TH, self.get_name(k).into()),
                            HTML::tag(str_ids::TD, self.compile_value(v.clone())),
                        ]).in_tag(str_ids::TR)'''.replace('                            HTML::from_iter', '                        HTML::from_iter', 1), '''                        let head = HTML::tag(str_ids::TH, self.get_name(k).into());
                        let cell = HTML::tag(str_ids::TD, self.compile_value(v.clone()));
                        HTML::tag(str_ids::TR, HTML::from_iter([head, cell]))''')], OK),
 ('ok list ref', [(V, '''                    .iter()
                    .cloned()
                    .map(|child| self.compile_value(child).in_tag(str_ids::LI))''', '''                    .iter()
                    .map(|child| HTML::tag(str_ids::LI, self.compile_value(child.clone())))''')], OK),
 ('ok ident', [(T, '''    matches!(s_chars.next(), Some(c) if is_ident_start(c))
        && s_chars.all(is_ident_cont)''', '''    match s_chars.next() {
        Some(c) if is_ident_start(c) => s_chars.all(is_ident_cont),
        _ => false,
    }''')], OK),
 ('ok ident loop', [(T, '''    matches!(s_chars.next(), Some(c) if is_ident_start(c))
        && s_chars.all(is_ident_cont)''', '''    let Some(first) = s_chars.next() else { return false };
    if !is_ident_start(first) { return false; }
    for c in s_chars { if !is_ident_cont(c) { return false; } }
    true''')], OK),
 ('ok doctype', [(G, 'name_str.eq_ignore_ascii_case("!DOCTYPE")', 'name_str.to_ascii_uppercase() == "!DOCTYPE"')], OK),
 ('ok fn name', [(V, '''                let name = self.get_name(f.name_id());
                HTML::tag(str_ids::CODE, format!("(@fn {name})").into())''', '''                let mut s = String::from("(@fn ");
                s += self.get_name(f.name_id());
                s.push(')');
                HTML::tag(str_ids::CODE, s.as_str().into())''')], {}),
 ('ok fence helper', [(V, 'let f_name = if is_multiline { str_ids::CODE_BLOCK } else { str_ids::CODE };', 'let f_name = match is_multiline { true => str_ids::CODE_BLOCK, false => str_ids::CODE };')], OK),
]

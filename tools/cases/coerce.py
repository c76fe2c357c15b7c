T = 'src/compiler/types.rs'
H = 'src/compiler/html.rs'
V = 'src/compiler/value.rs'
Y = 'src/parser/types.rs'
BUG = {'P19': 1}
OK = {'P19': 0}
CASES = [
 ('revert link fix', [(H, 'HTML::Tag(_) => !self.is_block(),', 'HTML::Tag(tag) => !taginfo::is_block(tag.name_id),')], BUG),
 ('link block', [(H, '            HTML::Tag(tag) => if tag.name_id == str_ids::A {\n                tag.content.block_kind()\n            } else {\n                taginfo::is_block(tag.name_id).then_some(tag.name_id)\n            },', '            HTML::Tag(tag) => taginfo::is_block(tag.name_id).then_some(tag.name_id),')], BUG),
 ('seq first', [(H, 'HTML::Sequence(seq) => seq.iter().find_map(HTML::block_kind),', 'HTML::Sequence(seq) => seq[0].block_kind(),')], BUG),
 ('seq skip', [(H, 'HTML::Sequence(seq) => seq.iter().find_map(HTML::block_kind),', 'HTML::Sequence(seq) => seq.iter().skip(1).find_map(HTML::block_kind),')], BUG),
 ('seq any inline', [(H, 'HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),', 'HTML::Sequence(seq) => seq.iter().any(HTML::is_inline),')], BUG),
 ('empty inline', [(H, '            HTML::Empty => false,\n        }\n    }\n    \n    /// Indicates whether this HTML item is whitespace', '            HTML::Empty => true,\n        }\n    }\n    \n    /// Indicates whether this HTML item is whitespace')], BUG),
 ('raw newline not inline', [(H, '            HTML::RawNewline => true,\n            \n            HTML::Tag', '            HTML::RawNewline => false,\n            \n            HTML::Tag')], BUG),
 ('str is html no', [(T, '            (Type::Html, Value::Str(..)) |\n            (Type::Inline, Value::Str(..)) => true,', '            (Type::Html, Value::Str(..)) => true,')], BUG),
 ('block str ok', [(T, '            (Type::Inline, Value::Str(..)) => true,', '            (Type::Inline | Type::Block, Value::Str(..)) => true,')], BUG),
 ('block check', [(T, '(Type::Block, Value::HTML(h)) => h.is_block(),', '(Type::Block, Value::HTML(..)) => true,')], BUG),
 ('inline check not', [(T, '(Type::Inline, Value::HTML(h)) => h.is_inline(),', '(Type::Inline, Value::HTML(h)) => h.is_block(),')], BUG),
 ('all any', [(T, '            .all(|v| self.check_value(v))', '            .any(|v| self.check_value(v))')], BUG),
 ('all short', [(T, 'if *self == Type::Any { return true; }', 'if *self == Type::Any || *self == Type::Html { return true; }')], BUG),
 ('list skip', [(T, 't.check_all(vs.as_ref().iter())', 't.check_all(vs.as_ref().iter().take(100))')], BUG),
 ('optional no', [(T, '(Type::Optional(t), v) => t.check_value(v),', '(Type::Optional(_), _) => true,')], BUG),
 ('unit assign', [(Y, '            Type::Inline |\n            Type::Unit |', '            Type::Inline |\n            Type::Str |\n            Type::Unit |')], BUG),
 ('coerce opt unit', [(T, 'if value.is_unit() { return Ok(Value::UNIT); }', 'if value.is_unit() && **t != Type::Str { return Ok(Value::UNIT); }')], {'P19': 1}),
 ('coerce block str', [(T, '            (Type::Inline, Value::Str(..)) |\n            (Type::Html, Value::HTML(..)) |', '            (Type::Inline | Type::Block, Value::Str(..)) |\n            (Type::Html, Value::HTML(..)) |')], BUG),
 ('coerce inline html', [(T, '            (Type::Html, Value::HTML(..)) |\n            (Type::Function', '            (Type::Html | Type::Inline, Value::HTML(..)) |\n            (Type::Function')], BUG),
 ('coerce elements not', [(T, '''                let mut coerced_vs = vs.as_ref().to_vec();
                t.coerce_all(coerced_vs.iter_mut(), value_to_html)?;
                return Ok(coerced_vs.into());''', '''                let mut coerced_vs = vs.as_ref().to_vec();
                let _ = t.coerce_all(coerced_vs.iter_mut(), value_to_html);
                return Ok(coerced_vs.into());''')], BUG),
 ('coerce skip first', [(T, 't.coerce_all(coerced_vs.iter_mut(), value_to_html)?;', 't.coerce_all(coerced_vs.iter_mut().skip(1), value_to_html)?;')], BUG),
 ('coerce drop', [(T, '            *v = self.coerce_value(old_v, value_to_html)?;', '            if !old_v.is_unit() { *v = self.coerce_value(old_v, value_to_html)?; }')], BUG),
 ('coerce shortcut', [(T, '            (Type::List(t), Value::List(vs)) => {\n                let mut', '            (Type::List(t), Value::List(vs)) if vs.len() == 1 && matches!(**t, Type::Html) => return Ok(value),\n            (Type::List(t), Value::List(vs)) => {\n                let mut')], BUG),
 ('bool lower', [(T, 'return Ok(token::Token::bool_to_string(b).into()),', 'return Ok(token::Token::bool_to_string(!b).into()),')], BUG),
 ('int to str', [(T, 'return Ok(i.to_string().into()),', 'return Ok(i.abs().to_string().into()),')], BUG),
 ('func to html', [(T, '            (_, Value::Func(..)) |\n', '')], BUG),
 ('list to inline', [(T, '(Type::Inline, Value::Dict(..) | Value::List(..)) => {},', '(Type::Inline, Value::Dict(..)) => {},')], BUG),
 ('block no wrap', [(T, '                if r.is_inline() {\n                    r = r.in_tag(str_ids::P);\n                }\n', '')], BUG),
 ('block wrap in div', [(T, 'r = r.in_tag(str_ids::P);', 'r = r.in_tag(str_ids::DIV);')], BUG),
 ('block wrap unless whitespace', [(T, 'if r.is_inline() {', 'if r.is_inline() && !r.is_whitespace() {')], BUG),
 ('inline accept block', [(T, 'if !v.is_block() {', 'if !v.is_empty() {')], BUG),
 ('str from regex', [(T, '(Type::Str, &Value::Int(i)) => return', '(Type::Str, Value::Regex(r)) => return Ok(r.as_str().into()),\n            (Type::Str, &Value::Int(i)) => return')], BUG),
 ('gettype swapped', [(V, '{ Type::Block } else { Type::Inline }', '{ Type::Inline } else { Type::Block }')], BUG),
 ('common skip', [(V, '        vs.map(Value::get_type)\n', '        vs.take(16).map(Value::get_type)\n')], BUG),
 ('common last', [(V, '            .reduce(Type::least_upper_bound)\n', '            .reduce(|a, b| if b.is_html() { a } else { a.least_upper_bound(b) })\n')], BUG),
 ('lub block', [(T, '(t1, t2) if t1.is_html() && t2.is_html() => Type::Html,', '(Type::Block, Type::Html) | (Type::Html, Type::Block) => Type::Block,\n            (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,')], BUG),
 ('lub optional dropped', [(T, 't1.least_upper_bound(*t2).option(),\n            (Type::Optional(t1), t2)', 't1.least_upper_bound(*t2),\n            (Type::Optional(t1), t2)')], BUG),
 ('lub optional dropped 2', [(T, '=> t1.least_upper_bound(t2).option(),', '=> t1.least_upper_bound(t2),')], BUG),
 ('lub list left', [(T, '(Type::List(t1), Type::List(t2)) => t1.least_upper_bound(*t2).list(),', '(Type::List(t1), Type::List(t2)) => if t1.is_html() && t2.is_html() { t1.list() } else { t1.least_upper_bound(*t2).list() },')], BUG),
 ('lub any', [(T, '            (Type::Any, _) | (_, Type::Any) => Type::Any,\n', '')], OK),
 ('lub any wrong', [(T, '(Type::Any, _) | (_, Type::Any) => Type::Any', '(Type::Any, t) | (t, Type::Any) => t')], BUG),
 ('component', [(T, 'Type::Optional(t) => t.component_type(),', 'Type::Optional(t) => t,')], BUG),
 ('component html', [(T, 'Type::Block | Type::Html => &Type::Html,', 'Type::Block | Type::Html => self,')], BUG),
 # the same behaviour
 ('kind guard', [(H, 'HTML::Tag(tag) => if tag.name_id == str_ids::A {\n                tag.content.block_kind()\n            } else {\n                taginfo::is_block(tag.name_id).then_some(tag.name_id)\n            },', 'HTML::Tag(tag) if tag.name_id == str_ids::A => tag.content.block_kind(),\n            HTML::Tag(tag) => if taginfo::is_block(tag.name_id) { Some(tag.name_id) } else { None },')], OK),
 ('kind loop', [(H, 'HTML::Sequence(seq) => seq.iter().find_map(HTML::block_kind),', 'HTML::Sequence(seq) => {\n                for item in seq.iter() {\n                    if let Some(k) = item.block_kind() { return Some(k); }\n                }\n                None\n            },')], OK),
 ('inline rewritten', [(H, '''            HTML::Tag(_) => !self.is_block(),
            HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),
            
            HTML::Empty => false,''', '''            HTML::Tag(_) | HTML::Sequence(_) => !self.is_block(),
            HTML::Empty => false,''')], OK),
 ('inline any', [(H, 'HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),', 'HTML::Sequence(seq) => !seq.iter().any(|h| !h.is_inline()),')], OK),
 ('all loop', [(T, '        vs.cloned()\n            .all(|v| self.check_value(v))', '        for v in vs {\n            if !self.check_value(v.clone()) { return false; }\n        }\n        true')], OK),
 ('all no shortcut', [(T, '        if *self == Type::Any { return true; }\n', '')], OK),
 ('check match', [(T, '            (t, v) if v.is_unit() => t.unit_is_assignable(),\n            \n            (Type::Any, _) |', '            (t, Value::HTML(HTML::Empty)) => t.unit_is_assignable(),\n            (Type::Any, _) => true,\n')], OK),
 ('coerce inline last', [(T, '                let v = value_to_html(value.clone());\n                if !v.is_block() {\n                    return Ok(v.into());\n                }', '                let v = value_to_html(value.clone());\n                if v.is_empty() || v.is_inline() {\n                    return Ok(v.into());\n                }')], OK),
 ('coerce all try', [(T, '        for v in vs {\n            let old_v = std::mem::take(v);\n            *v = self.coerce_value(old_v, value_to_html)?;\n        }\n        Ok(())', '        vs.into_iter().try_for_each(|v| {\n            *v = self.coerce_value(v.clone(), value_to_html)?;\n            Ok(())\n        })')], OK),
 ('coerce list collect', [(T, '''                let mut coerced_vs = vs.as_ref().to_vec();
                t.coerce_all(coerced_vs.iter_mut(), value_to_html)?;
                return Ok(coerced_vs.into());''', '''                let mut coerced_vs = Vec::with_capacity(vs.len());
                for v in vs.as_ref() {
                    coerced_vs.push(t.coerce_value(v.clone(), value_to_html)?);
                }
                return Ok(coerced_vs.into());''')], OK),
 ('coerce list collect2', [(T, '''                let mut coerced_vs = vs.as_ref().to_vec();
                t.coerce_all(coerced_vs.iter_mut(), value_to_html)?;
                return Ok(coerced_vs.into());''', '''                let coerced_vs = vs.as_ref().iter()
                    .map(|v| t.coerce_value(v.clone(), value_to_html))
                    .collect::<Result<Vec<_>, _>>()?;
                return Ok(coerced_vs.into());''')], OK),
 ('coerce any shortcut', [(T, '            (Type::Dict(t), Value::Dict(vs)) => {\n                let mut', '            (Type::Dict(t) | Type::List(t), Value::Dict(_) | Value::List(_)) if expected.check_value(value.clone()) && **t == Type::Any => return Ok(value),\n            (Type::Dict(t), Value::Dict(vs)) => {\n                let mut')], OK),
 ('block wrapped match', [(T, '                let mut r = value_to_html(value);\n                if r.is_inline() {\n                    r = r.in_tag(str_ids::P);\n                }\n                return Ok(r.into());', '                let r = value_to_html(value);\n                let wrap = !r.is_empty() && !r.is_block();\n                return Ok(if wrap { HTML::tag(str_ids::P, r).into() } else { r.into() });')], OK),
 ('gettype inline', [(V, 'if html.is_empty() { Type::Unit } else if html.is_block() { Type::Block } else { Type::Inline }', 'if html.is_inline() { Type::Inline } else if html.is_block() { Type::Block } else { Type::Unit }')], OK),
 ('common fold', [(V, '        vs.map(Value::get_type)\n            .reduce(Type::least_upper_bound)\n            .unwrap_or(Type::Unit)', '        let mut t: Option<Type> = None;\n        for v in vs {\n            let vt = v.get_type();\n            t = Some(match t { None => vt, Some(t) => t.least_upper_bound(vt) });\n        }\n        t.unwrap_or(Type::Unit)')], OK),
 ('lub order', [(T, '            (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,\n            \n            (Type::List(t1), Type::List(t2)) => t1.least_upper_bound(*t2).list(),', '            (Type::List(t1), Type::List(t2)) => Type::List(Box::new(t1.least_upper_bound(*t2))),\n            (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,')], OK),
 ('extract wrap helper', [(T, '''                let mut r = value_to_html(value);
                if r.is_inline() {
                    r = r.in_tag(str_ids::P);
                }
                return Ok(r.into());''', '''                return Ok(to_block(value_to_html(value)).into());'''), (T, 'impl <\'a> Compiler<\'a> {\n', 'fn to_block(h: HTML) -> HTML {\n    if h.is_inline() { h.in_tag(str_ids::P) } else { h }\n}\n\nimpl <\'a> Compiler<\'a> {\n')], OK),
]

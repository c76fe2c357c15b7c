V = 'src/compiler/value.rs'
F = 'src/compiler/func.rs'
X = 'src/compiler/exports.rs'
T = 'src/parser/token.rs'
BUG, OK = {'P27': 1}, {'P27': 0}
CASES = [
 ('bool not', [(V, '&Expr::Bool(b, ..) => b.into()', '&Expr::Bool(b, ..) => (!b).into()')], BUG),
 ('int abs', [(V, '&Expr::Int(i, ..) => i.into()', '&Expr::Int(i, ..) => i.max(-9).into()')], BUG),
 ('bare trimmed', [(V, '&Expr::BareString(range) => self.get_source_str(range).into()', '&Expr::BareString(range) => self.get_source_str(range).trim_end_matches(\'-\').into()')], BUG),
 ('bare as verbatim', [(V, '&Expr::BareString(range) => self.get_source_str(range).into()', '&Expr::BareString(range) => self.evaluate_verbatim(range)')], BUG),
 ('verbatim quoted', [(V, '&Expr::Verbatim(range) => self.evaluate_verbatim(range)', '&Expr::Verbatim(range) => self.get_source_str(range).into()')], BUG),
 ('verbatim trim', [(T, "s.trim_matches('`')", "s.trim_matches('`').trim()")], BUG),
 ('unit', [(V, 'Expr::Unit(..) => Value::UNIT', 'Expr::Unit(..) => "".into()')], BUG),
 ('let export', [(V, 'self.evaluate_let_in(let_in, type_hint, false)', 'self.evaluate_let_in(let_in, type_hint, true)')], BUG),
 ('let hint', [(V, 'self.evaluate_let_in(let_in, type_hint, false)', 'self.evaluate_let_in(let_in, &Type::Any, false)')], BUG),
 ('group empty', [(V, 'Expr::Group(children, ..) => self.compile_sequence(children, taginfo::ContentKind::ALLOW_P).into()', 'Expr::Group(children, ..) => self.compile_sequence(&children[..children.len().min(1)], taginfo::ContentKind::ALLOW_P).into()')], BUG),
 ('coerce any', [(V, 'self.coerce(v, type_hint)\n            .map_err(|e| self.report(e, node.range()))', 'self.coerce(v, &Type::Any)\n            .map_err(|e| self.report(e, node.range()))')], BUG),
 ('list rev', [(V, 'for &(ref child, is_spread) in list.iter() {', 'for &(ref child, is_spread) in list.iter().rev() {')], BUG),
 ('list skip', [(V, 'for &(ref child, is_spread) in list.iter() {', 'for &(ref child, is_spread) in list.iter().take(64) {')], BUG),
 ('list spread flipped', [(V, '            if is_spread {\n                // can', '            if !is_spread {\n                // can')], BUG),
 ('list spread rev', [(V, 'children.extend(grandchildren.as_ref().iter().cloned());', 'children.extend(grandchildren.as_ref().iter().rev().cloned());')], BUG),
 ('list spread filter', [(V, 'children.extend(grandchildren.as_ref().iter().cloned());', 'children.extend(grandchildren.as_ref().iter().filter(|v| !v.is_unit()).cloned());')], BUG),
 ('list drop unit', [(V, '                children.push(child);\n', '                if !child.is_unit() { children.push(child); }\n')], BUG),
 ('list front', [(V, '                children.push(child);\n', '                children.insert(0, child);\n')], BUG),
 ('list dedup', [(V, '        self.coerce(children.into(), type_hint)', '        children.dedup();\n        self.coerce(children.into(), type_hint)')], BUG),
 ('list no coerce', [(V, '        self.coerce(children.into(), type_hint)\n            .map_err(|e| self.report(e, range))', '        let _ = range; Ok(children.into())')], BUG),
 ('template skip literal', [(V, 'out += self.get_source_str(*range);', 'out += self.get_source_str(*range).trim_start();')], BUG),
 ('template char', [(V, 'out.push(*c);', 'if !c.is_control() { out.push(*c); }')], BUG),
 ('template name', [(V, 'out += s.as_ref();', 'out += s.trim();')], BUG),
 ('template name front', [(V, 'out += s.as_ref();', 'out.insert_str(0, s.as_ref());')], BUG),
 ('template ws', [(V, 'out += " ";', 'if !out.is_empty() { out += " "; }')], BUG),
 ('template rev', [(V, 'for part in parts.iter() {', 'for part in parts.iter().rev() {')], BUG),
 ('template trimmed', [(V, '        Ok(out.into())\n    }\n    \n    pub(super) fn evaluate_let', '        Ok(out.trim_end().into())\n    }\n    \n    pub(super) fn evaluate_let')], BUG),
 ('let implicit', [(V, '_self.set_var(name_id, v, let_in.is_implicit, range);', '_self.set_var(name_id, v, let_in.is_implicit || do_export, range);')], BUG),
 ('let rev', [(V, 'in let_in.vars.iter() {', 'in let_in.vars.iter().rev() {')], BUG),
 ('let export not', [(V, 'if do_export { _self', 'if do_export && !let_in.is_implicit { _self')], BUG),
 ('let export set', [(V, 'if do_export { _self.export(name_id, v.clone(), range); }\n                _self.set_var(name_id, v, let_in.is_implicit, range);', 'if do_export { _self.export(name_id, v, range); } else {\n                _self.set_var(name_id, v, let_in.is_implicit, range); }')], BUG),
 ('let child hint', [(V, '_self.evaluate_node(&let_in.child, type_hint)', '_self.evaluate_node(&let_in.child, if do_export { &Type::Any } else { &Type::Unit })')], BUG),
 ('let unit', [(V, '                _self.set_var(name_id, v, let_in.is_implicit, range);', '                if !v.is_unit() { _self.set_var(name_id, v, let_in.is_implicit, range); }')], BUG),
 ('export first wins', [(X, 'if self.exports.insert(name_id, value).is_some() {', 'let dup = self.exports.contains_key(&name_id);\n        if !dup { self.exports.insert(name_id, value); }\n        if dup {')], BUG),
 ('export silent', [(X, 'if self.exports.insert(name_id, value).is_some() {', 'if self.exports.insert(name_id, value).map_or(false, |v| !v.is_unit()) {')], BUG),
 ('export always warns', [(X, 'if self.exports.insert(name_id, value).is_some() {', 'if self.exports.insert(name_id, value).is_none() {')], BUG),
 ('export names', [(X, 'for &(name_id, ref arg) in vars.iter() {', 'for &(name_id, ref arg) in vars.iter().skip(1) {')], BUG),
 ('export names unit', [(X, '                    self.export(name_id, v, arg.range());', '                    if !v.is_unit() { self.export(name_id, v, arg.range()); }')], BUG),
 ('export let', [(X, 'self.evaluate_let_in(let_in, &Type::Unit, true)?', 'self.evaluate_let_in(let_in, &Type::Unit, false)?')], BUG),
 ('export let implicit', [(X, 'self.evaluate_let_in(let_in, &Type::Unit, true)?', 'self.evaluate_let_in(let_in, &Type::Unit, !let_in.is_implicit)?')], BUG),
 ('export fn unset', [(X, '                self.set_var(name_id, f, false, range);\n', '                let _ = f;\n')], BUG),
 ('export fn unexported', [(X, '                self.export(name_id, f.clone(), range);\n', '')], BUG),
 ('export fn implicit', [(X, 'self.set_var(name_id, f, false, range)', 'self.set_var(name_id, f, true, range)')], BUG),
 ('func name anon', [(F, '            name_id: def.name_id,', '            name_id: if def.signature.has_content { def.name_id } else { crate::utils::str_ids::ANONYMOUS },')], BUG),
 ('bound name', [(F, 'Func::Bound(f) => f.0.name_id(),', 'Func::Bound(_) => crate::utils::str_ids::ANONYMOUS,')], BUG),
 # behaviour kept
 ('ok helper', [(V, '&Expr::Bool(b, ..) => b.into()', '&Expr::Bool(b, ..) => Value::Bool(b)')], OK),
 ('ok push loop', [(V, 'children.extend(grandchildren.as_ref().iter().cloned());', 'for g in grandchildren.as_ref().iter() { children.push(g.clone()); }')], OK),
 ('ok template push_str', [(V, 'out += s.as_ref();', 'out.push_str(s.as_ref());'), (V, 'out += " ";', "out.push(' ');"), (V, 'out += self.get_source_str(*range);', 'let t = self.get_source_str(*range);\n                    out.push_str(t);')], OK),
 ('ok template if', [(V, '''                    let s: Option<RcStr> = self.evaluate_name(name, &Type::Str.option())?
                        .expect_convert();
                    if let Some(s) = s {
                        out += s.as_ref();
                    }''', '''                    let v = self.evaluate_name(name, &Type::Str.option())?;
                    match v.expect_convert::<Option<RcStr>>() {
                        Some(s) => out.push_str(&s),
                        None => {},
                    }''')], OK),
 ('ok let order', [(V, '''                if do_export { _self.export(name_id, v.clone(), range); }
                _self.set_var(name_id, v, let_in.is_implicit, range);''', '''                _self.set_var(name_id, v.clone(), let_in.is_implicit, range);
                if do_export { _self.export(name_id, v, range); }''')], OK),
 ('ok list for', [(V, '        for &(ref child, is_spread) in list.iter() {\n', '        for i in 0..list.len() {\n            let child = &list[i].0; let is_spread = list[i].1;\n')], OK),
 ('ok list cap', [(V, 'let mut children = Vec::new();', 'let mut children = Vec::with_capacity(list.len());')], OK),
 ('ok export', [(X, 'if self.exports.insert(name_id, value).is_some() {', 'let dup = self.exports.contains_key(&name_id);\n        self.exports.insert(name_id, value);\n        if dup {')], OK),
 ('ok export get', [(X, 'if self.exports.insert(name_id, value).is_some() {', 'let previous = self.exports.insert(name_id, value);\n        if let Some(_old) = previous {')], OK),
 ('ok export fn', [(X, '''                self.export(name_id, f.clone(), range);
                self.set_var(name_id, f, false, range);''', '''                self.set_var(name_id, f.clone(), false, range);
                self.export(func_def.name_id, f, range);''')], OK),
 ('ok export split', [(X, '''                for &(name_id, ref arg) in vars.iter() {
                    let v = self.evaluate_node(arg, &Type::Any)?;
                    self.export(name_id, v, arg.range());
                }
''', '''                vars.iter().try_for_each(|(name_id, arg)| {
                    let v = self.evaluate_node(arg, &Type::Any)?;
                    self.export(*name_id, v, arg.range());
                    Ok(())
                })?;
''')], OK),
 ('ok list helper', [(V, '''                let child = self.evaluate_node(child, child_type_hint)?;
                children.push(child);
''', '''                children.push(self.evaluate_item(child, child_type_hint)?);
'''), (V, '    fn evaluate_list(', '    fn evaluate_item(&mut self, item: &Expr, hint: &Type) -> errors::Reported<Value> {\n        self.evaluate_node(item, hint)\n    }\n    \n    fn evaluate_list(')], OK),
 ('ok match order', [(V, '            Expr::Unit(..) => Value::UNIT,\n            &Expr::Bool(b, ..) => b.into(),', '            &Expr::Bool(b, ..) => b.into(),\n            Expr::Unit(..) => Value::UNIT,')], OK),
]

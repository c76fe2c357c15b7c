N = 'src/compiler/names.rs'
NA = 'src/compiler/native.rs'
F = 'src/compiler/func.rs'
G = 'src/compiler/native_gen.rs'
S = 'src/compiler/signature.rs'
K = 'src/utils/const_strs.rs'
ARMS = 'if subject.is_unit() && attr.is_coalescing {\n            return Ok(Value::UNIT);\n        } else if let Value::Dict(ref vs) = subject {'
BUG, OK = {'P26': 1}, {'P26': 0}
CASES = [
 ('coalesce always', [(N, 'subject.is_unit() && attr.is_coalescing', 'subject.is_unit()')], BUG),
 ('coalesce never', [(N, 'subject.is_unit() && attr.is_coalescing', 'subject.is_unit() && attr.is_coalescing && attr_id != str_ids::TAG_NAME')], BUG),
 ('coalesce or', [(N, 'subject.is_unit() && attr.is_coalescing', 'subject.is_unit() || attr.is_coalescing')], BUG),
 ('coalesce subject', [(N, 'return Ok(Value::UNIT);\n        } else if let Value::Dict', 'return Ok(true.into());\n        } else if let Value::Dict')], BUG),
 ('dict last', [(N, '            if let Some(v) = vs.get(&attr_id) {', '            if let Some(v) = vs.get(&attr_id).filter(|v| !v.is_unit()) {')], BUG),
 ('dict first entry', [(N, 'vs.get(&attr_id)', 'vs.get(&attr_id).or_else(|| vs.values().next())')], BUG),
 ('tag other', [(N, 'attr_id == str_ids::TAG_NAME', 'attr_id == str_ids::NAME')], BUG),
 ('tag any', [(N, 'attr_id == str_ids::TAG_NAME', 'attr_id == str_ids::TAG_NAME || attr_id == str_ids::NAME')], BUG),
 ('tag wrong', [(N, 'self.get_name(t.name_id).into()', 'self.get_name(attr_id).into()')], BUG),
 ('wrong subject', [(N, 'self.evaluate_native_attr(subject, attr_id)', 'self.evaluate_native_attr(Value::UNIT, attr_id)')], BUG),
 ('no coerce', [(N, 'value.and_then(|v| self.coerce(v, type_hint))', 'value')], BUG),
 ('coerce any', [(N, 'self.coerce(v, type_hint)', 'self.coerce(v, &Type::Any)')], BUG),
 ('index coalesce', [(N, 'option_if(index.is_coalescing)', 'option_if(true)')], BUG),
 ('index abs', [(N, 'self.list_get(subject, index.index)', 'self.list_get(subject, index.index.max(0))')], BUG),
 ('index off', [(N, 'self.list_get(subject, index.index)', 'self.list_get(subject, index.index - 1)')], BUG),
 ('bind swap', [(NA, '        @bind_content\n        fn CONTAINS', '        @bind_positional\n        fn CONTAINS')], BUG),
 ('bind split', [(NA, '        @bind_positional\n        fn SPLIT(REGEX', '        @bind_content\n        fn SPLIT(REGEX')], BUG),
 ('bind content pos', [(F, 'binder.add_content_arg(content_arg)?;\n        binder.close_into_bound_function(self)', 'binder.add_positional_arg(content_arg)?;\n        binder.close_into_bound_function(self)')], BUG),
 ('missing attr', [(NA, '        @bind_content\n        fn FLAT', '        fn FLAT')], BUG),
 ('wrong class', [(G, '                            str_ids::$m_name,\n                            FuncSignature::builder()', '                            str_ids::$type_name,\n                            FuncSignature::builder()')], BUG),
 ('name text', [(K, 'FIND_ALL = "find_all"', 'FIND_ALL = "findall"')], BUG),
 ('attr from any class', [(G, 'matches!(subject, Value::$type_variant(..))', 'matches!(subject, Value::$type_variant(..) | Value::Bool(..))')], OK),
 # refactorings
 ('match', [(N, ARMS, 'if attr.is_coalescing && subject.is_unit() {\n            return Ok(Value::UNIT);\n        }\n        if let Value::Dict(ref vs) = subject {')], OK),
 ('nested', [(N, 'if let Some(v) = vs.get(&attr_id) {\n                return Ok(v.clone());\n            }', 'let found = vs.get(&attr_id);\n            if found.is_some() {\n                return Ok(found.unwrap().clone());\n            }')], OK),
 ('contains', [(N, 'if let Some(v) = vs.get(&attr_id) {\n                return Ok(v.clone());\n            }', 'if vs.contains_key(&attr_id) {\n                return Ok(vs[&attr_id].clone());\n            }')], OK),
 ('match natives', [(N, '        self.evaluate_native_attr(subject, attr_id)\n            .map(Value::from)', '        let f = self.evaluate_native_attr(subject, attr_id)?;\n        Ok(Value::Func(f))')], OK),
 ('index match', [(N, '''        let Some(subject) = self.evaluate_name(&index.subject, &type_hint)?
            .expect_convert::<Option<List>>() else {
                return Ok(Value::UNIT);
            };
        
        self.list_get(subject, index.index)''', '''        let subject = self.evaluate_name(&index.subject, &type_hint)?;
        match subject.expect_convert::<Option<List>>() {
            Some(vs) => self.list_get(vs, index.index),
            None => Ok(Value::UNIT),
        }''')], OK),
 ('early coerce', [(N, '''        value.and_then(|v| self.coerce(v, type_hint))
            .map_err(|e| self.report(e, name.range()))''', '''        let r = match value {
            Ok(v) => self.coerce(v, type_hint),
            Err(e) => Err(e),
        };
        r.map_err(|e| self.report(e, name.range()))''')], OK),
 ('tag match', [(N, '''            if attr_id == str_ids::TAG_NAME {
                return Ok(self.get_name(t.name_id).into())
            }''', '''            match attr_id {
                str_ids::TAG_NAME => {
                    let name = self.get_name(t.name_id);
                    return Ok(name.into());
                },
                _ => {},
            }''')], OK),
 ('inline simple', [(N, 'ast::Name::Simple(name) => self.get_var(name.name_id),', 'ast::Name::Simple(simple) => {\n                let id = simple.name_id;\n                self.get_var(id)\n            },')], OK),
 ('index if', [(N, 'let type_hint = Type::Any.list().option_if(index.is_coalescing);', 'let mut type_hint = Type::Any.list();\n        if index.is_coalescing {\n            type_hint = type_hint.option();\n        }')], OK),
 ('bind helper', [(F, '''        let mut binder = self.get_partials()
            .open(compiler, self.signature());
        
        binder.add_content_arg(content_arg)?;
        binder.close_into_bound_function(self)''', '''        let partials = self.get_partials();
        let mut binder = partials.open(compiler, self.signature());
        let added = binder.add_content_arg(content_arg);
        added?;
        binder.close_into_bound_function(self)''')], OK),
 ('globals', [(G, 'ActiveFrame::new(None, globals, None)', 'let frame = ActiveFrame::new(None, globals, None);\n                frame')], OK),
]

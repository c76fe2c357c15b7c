F = 'src/compiler/func.rs'
V = 'src/compiler/value.rs'
N = 'src/compiler/names.rs'
TG = 'src/compiler/tag.rs'
S = 'src/compiler/signature.rs'
SQ = 'src/compiler/sequence.rs'
NA = 'src/compiler/native.rs'
NG = 'src/compiler/native_gen.rs'
VC = 'src/compiler/value_convert.rs'
M = 'src/compiler/matcher.rs'
BUG = {'P20': 1}
OK = {'P20': 0}
CASES = [
 ('revert fix', [(F, '                return self.coerce(Value::UNIT, type_hint)\n                    .map_err(|e| self.report(e, call.range));', '                return Ok(Value::UNIT);')], BUG),
 ('unit not coerced', [(V, 'Expr::Unit(..) => Value::UNIT,', 'Expr::Unit(..) => return Ok(Value::UNIT),')], BUG),
 ('func def', [(V, 'if type_hint.is_html() {', 'if !type_hint.is_html() { return Ok(f.into()); } else {')], BUG),
 ('let any', [(V, '_self.evaluate_node(&let_in.child, type_hint)', '_self.evaluate_node(&let_in.child, &Type::Any)')], BUG),
 ('list not coerced', [(V, '        self.coerce(children.into(), type_hint)\n            .map_err(|e| self.report(e, range))', '        let _ = range;\n        Ok(children.into())')], BUG),
 ('list shortcut', [(V, '        self.coerce(children.into(), type_hint)\n', '        if *child_type_hint == Type::Any { return Ok(children.into()); }\n        self.coerce(children.into(), type_hint)\n')], BUG),
 ('match any', [(M, '.then(|| _self.evaluate_node(handler, type_hint))', '.then(|| _self.evaluate_node(handler, &Type::Any))')], BUG),
 ('native not coerced', [(F, '                    .and_then(|v| self.coerce(v, type_hint))\n', '')], BUG),
 ('body any', [(F, '_self.evaluate_node(f.body.as_ref(), type_hint)', '_self.evaluate_node(f.body.as_ref(), if f.signature.has_content_param() { type_hint } else { &Type::Any })')], {}),
 ('body any 2', [(F, '_self.evaluate_node(f.body.as_ref(), type_hint)', '_self.evaluate_node(f.body.as_ref(), &Type::Any)')], BUG),
 ('name unit', [(N, '        value.and_then(|v| self.coerce(v, type_hint))', '        value.and_then(|v| if v.is_unit() { Ok(v) } else { self.coerce(v, type_hint) })')], BUG),
 ('index hint', [(N, '.option_if(index.is_coalescing);', '.option();')], {'P20': 0}),
 ('index any', [(N, 'let type_hint = Type::Any.list().option_if(index.is_coalescing);', 'let type_hint = if index.is_coalescing { Type::Any } else { Type::Any.list() };')], BUG),
 ('call any', [(F, 'let func_type = Type::Function\n            .option_if(call.func.is_coalescing());', 'let func_type = if call.func.is_coalescing() { Type::Any } else { Type::Function };')], BUG),
 ('attr hint', [(TG, 'let expected_type = Type::Str.option_if(attr.question_mark);', 'let expected_type = if attr.question_mark { Type::Html } else { Type::Str };')], BUG),
 ('spread attrs', [(TG, 'self.evaluate_node(spread, &AttrMap::as_type())?', 'self.evaluate_node(spread, &Type::Any.dict())?')], BUG),
 ('tag name', [(TG, 'self.evaluate_name(name, &Type::Str)?', 'self.evaluate_name(name, &Type::Str.option())?')], BUG),
 ('template', [(V, 'self.evaluate_name(name, &Type::Str.option())?', 'self.evaluate_name(name, &Type::Html)?')], BUG),
 ('spread list', [(V, 'self.evaluate_node(child, &child_type_hint.clone().list())?', 'self.evaluate_node(child, &child_type_hint.clone().list().option())?')], BUG),
 ('spread positional', [(S, 'self.compiler.evaluate_node(&arg.value, &Type::Any.list())?', 'self.compiler.evaluate_node(&arg.value, sig.spread_param.as_ref().map_or(&Type::Any, |p| &p.type_))?')], BUG),
 ('content any', [(SQ, 'let v = self.evaluate_node(expr, &Type::Html)?;', 'let v = self.evaluate_node(expr, if builder.parent_tag.is_none() { &Type::Any } else { &Type::Html })?;')], BUG),
 ('content block', [(SQ, 'let v = self.evaluate_node(expr, &Type::Html)?;', 'let v = self.evaluate_node(expr, &Type::Inline)?;')], {'P20': 0}),
 ('callback', [(NA, '            &T::as_type(),\n', '            &Type::Any,\n')], BUG),
 ('default wrong', [(NA, 'Value::Int(_) => decorated', 'Value::Int(_) => decorated')], OK),
 ('try option', [(VC, '        if value.is_unit() {\n            Ok(None)\n        } else {\n            T::try_convert(value).map(Option::Some)\n        }', '        T::try_convert(value).map(Option::Some)')], BUG),
 ('try html', [(VC, '            Value::Str(s) => Ok(s.into()),\n            Value::HTML(h) => Ok(h),', '            Value::HTML(h) => Ok(h),')], BUG),
 ('try list as type', [(VC, '        Type::Any.list()', '        Type::Any')], BUG),
 ('try map skip', [(VC, '            out.insert(k, T::try_convert(v.clone())?);', '            if v.is_unit() { return Err(()); }\n            out.insert(k, T::try_convert(v.clone())?);')], BUG),
 ('try int nonneg', [(VC, '            Value::Int(i) => Ok(i),', '            Value::Int(i) if i >= 0 => Ok(i),')], BUG),
 ('native param type', [(NG, '<$f_param_type>::as_type())', '<$f_param_type>::as_type().option())')], BUG),
 ('param default', [(S, '            .and_then(|v| match self.evaluate_node(v, &type_) {', '            .and_then(|v| match self.evaluate_node(v, &param.type_annotation) {')], {'P20': 0}),
 ('param default any', [(S, '            .and_then(|v| match self.evaluate_node(v, &type_) {', '            .and_then(|v| match self.evaluate_node(v, &Type::Any) {')], BUG),
 ('param question', [(S, '        let type_ = param.type_annotation.clone()\n            .option_if(param.question_mark);', '        let type_ = param.type_annotation.clone()\n            .option_if(param.question_mark && param.default_value.is_none());')], OK),
 ('param question no opt', [(S, '            .option_if(param.question_mark);', '            .option_if(param.question_mark && !param.is_implicit);')], BUG),
 # same behaviour
 ('eval helper', [(V, '        self.coerce(v, type_hint)\n            .map_err(|e| self.report(e, node.range()))\n    }', '        self.coerced_at(v, type_hint, node.range())\n    }\n    \n    fn coerced_at(&mut self, v: Value, t: &Type, range: SourceRange) -> errors::Reported<Value> {\n        match self.coerce(v, t) {\n            Ok(v) => Ok(v),\n            Err(e) => Err(self.report(e, range)),\n        }\n    }')], OK),
 ('name match', [(N, '        value.and_then(|v| self.coerce(v, type_hint))\n            .map_err(|e| self.report(e, name.range()))', '        let r = match value {\n            Ok(v) => self.coerce(v, type_hint),\n            Err(e) => Err(e),\n        };\n        r.map_err(|e| self.report(e, name.range()))')], OK),
 ('attr if', [(TG, 'let expected_type = Type::Str.option_if(attr.question_mark);', 'let expected_type = if attr.question_mark { Type::Str.option() } else { Type::Str };')], OK),
 ('tag name helper', [(TG, '                let name_str: RcStr = self.evaluate_name(name, &Type::Str)?\n                    .expect_convert();', '                let v = self.evaluate_name(name, &Type::Str)?;\n                let name_str = v.expect_convert::<RcStr>();')], OK),
 ('match first', [(M, '            let r = self.evaluate_in_frame(frame, |_self| {\n                _self.bind_pattern(pattern, value.clone())\n                    .then(|| _self.evaluate_node(handler, type_hint))\n            });\n            if let Some(r) = r { return r; }', '            let r = self.evaluate_in_frame(frame, |_self| {\n                if !_self.bind_pattern(pattern, value.clone()) { return None; }\n                Some(_self.evaluate_node(handler, type_hint))\n            });\n            if let Some(r) = r { return r; }')], OK),
 ('try_vec loop', [(VC, '        List::try_convert(value)?\n            .as_ref()\n            .iter()\n            .cloned()\n            .map(T::try_convert)\n            .collect()', '        let list = List::try_convert(value)?;\n        let mut out = Vec::with_capacity(list.len());\n        for v in list.as_ref().iter() {\n            out.push(T::try_convert(v.clone())?);\n        }\n        Ok(out)')], OK),
 ('try option match', [(VC, '        if value.is_unit() {\n            Ok(None)\n        } else {\n            T::try_convert(value).map(Option::Some)\n        }', '        match value {\n            v if v.is_unit() => Ok(None),\n            v => Ok(Some(T::try_convert(v)?)),\n        }')], OK),
 ('native call match', [(F, '                self.evaluate_native_func(f, bindings, call_range)\n                    .and_then(|v| self.coerce(v, type_hint))\n                    .map_err(|e| self.report(e, call_range))', '                let r = match self.evaluate_native_func(f, bindings, call_range) {\n                    Ok(v) => self.coerce(v, type_hint),\n                    e => e,\n                };\n                r.map_err(|e| self.report(e, call_range))')], OK),
]

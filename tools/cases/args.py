S = 'src/compiler/signature.rs'
F = 'src/compiler/func.rs'
BUG = {'P17': 1}
OK = {'P17': 0}
POS = '''        if let Some(param) = sig.positional_params.get(self.bound.positional_arg_count) {
            let v = self.compiler.coerce(value, &param.type_)?;
            self.bound.map.insert(param.name_id, v);
        } else if let Some(param) = &sig.spread_param {
            let v = self.compiler.coerce(value, param.type_.component_type())?;
            self.bound.spread_pos.push(v);
        } else {
            // do nothing; `TypeError::TooManyPositionalArgs` will be reported later
        }
        self.bound.positional_arg_count += 1;
        Ok(())
'''
IMP = '''            if !param.is_implicit || self.bound.map.contains_key(&param.name_id) {
                // do nothing
                continue;
            }
            
            let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
            let v = self.compiler.coerce(v, &param.type_)?;
            self.bound.map.insert(param.name_id, v);
'''
NAMED = '''        let (type_, map) = if let Some(param) = sig.named_params.get(&name_id) {
            (&param.type_, &mut self.bound.map)
        } else if let Some(param) = &sig.spread_named_param {
            (param.type_.component_type(), &mut self.bound.spread_named)
        } else {
            let name = self.compiler.get_name(name_id);
            let e = errors::NameError::NoSuchParameter(name);
            return Err(e.into());
        };
        
        let v = self.compiler.coerce(value, type_)?;
        if map.insert(name_id, v).is_some() {
            let name = self.compiler.get_name(name_id);
            let e = errors::RuntimeError::ParamMultipleValues(name);
            return Err(e.into());
        }
        Ok(())
'''
CONT = '''        if self.bound.map.contains_key(&name_id) {
            if !content_value.is_unit() {
                let e = errors::TypeError::ContentAlreadyBound;
                return Err(e.into());
            }
        } else {
            let v = self.compiler.coerce(content_value, &sig.content_param.type_)?;
            if !name_id.is_anonymous() {
                self.bound.map.insert(name_id, v);
            }
        }
        Ok(())
'''
DEFP = '''        if self.bound.positional_arg_count < sig.positional_params.len() {
            for param in &sig.positional_params[self.bound.positional_arg_count..] {
                let Some(v) = &param.default_value else {
                    let expected_count = sig.positional_params.iter().filter(|p| p.default_value.is_none()).count();
                    let e = errors::TypeError::NotEnoughPositionalArgs(expected_count, self.bound.positional_arg_count);
                    return Err(e.into());
                };
                self.bound.map.insert(param.name_id, *v.clone());
            }
        }
'''
DEFN = '''        for param in sig.named_params.values() {
            if self.bound.map.contains_key(&param.name_id) { continue; }
            let Some(v) = &param.default_value else {
                let name = self.compiler.get_name(param.name_id);
                let e = errors::RuntimeError::ParamMissing(name);
                return Err(e.into());
            };
            self.bound.map.insert(param.name_id, *v.clone());
        }
'''
SPR = '''        if let Some(param) = &sig.spread_param {
            let v = self.compiler.coerce(self.bound.spread_pos.into(), &param.type_)?;
            self.bound.map.insert(param.name_id, v);
        }
'''
CHK = 'if sig.spread_param.is_none() && self.bound.positional_arg_count > sig.positional_params.len() {'
CALLB = '''        for arg in call.args.iter() {
            binder.compile_arg(arg)?;
        }
        binder.bind_implicit_args()?;
        binder.compile_content_arg(&call.content)?;
        binder.build()
'''
CASES = [
    ('positional not coerced', [(S, 'let v = self.compiler.coerce(value, &param.type_)?;\n            self.bound.map.insert(param.name_id, v);\n        } else if', 'self.bound.map.insert(param.name_id, value);\n        } else if')], BUG),
    ('spread element not coerced', [(S, 'let v = self.compiler.coerce(value, param.type_.component_type())?;\n            self.bound.spread_pos.push(v);', 'self.bound.spread_pos.push(value);')], BUG),
    ('spread coerced to whole type', [(S, 'let v = self.compiler.coerce(value, param.type_.component_type())?;\n            self.bound.spread_pos.push(v);', 'let v = self.compiler.coerce(value, &param.type_)?;\n            self.bound.spread_pos.push(v);')], BUG),
    ('count only when bound', [(S, '''            self.bound.spread_pos.push(v);
        } else {
            // do nothing; `TypeError::TooManyPositionalArgs` will be reported later
        }
        self.bound.positional_arg_count += 1;
''', '''            self.bound.spread_pos.push(v);
        } else {
            return Ok(());
        }
        self.bound.positional_arg_count += 1;
''')], BUG),
    ('count not for spread', [(S, '            self.bound.spread_pos.push(v);\n', '            self.bound.spread_pos.push(v);\n            return Ok(());\n')], BUG),
    ('too many off by one', [(S, CHK, 'if sig.spread_param.is_none() && self.bound.positional_arg_count > sig.positional_params.len() + 1 {')], BUG),
    ('too many unless map', [(S, CHK, 'if sig.spread_param.is_none() && sig.spread_named_param.is_none() && self.bound.positional_arg_count > sig.positional_params.len() {')], BUG),
    ('close unchecked', [(S, 'self.check_pos_count()?;\n        let pair', 'let pair')], BUG),
    ('close drops partials', [(S, 'let pair = (f, self.bound);', 'self.bound.spread_pos.clear();\n        let pair = (f, self.bound);')], BUG),
    ('named dup ok', [(S, 'if map.insert(name_id, v).is_some() {', 'if map.insert(name_id, v).is_some() && sig.spread_named_param.is_none() {')], BUG),
    ('named not coerced', [(S, 'let v = self.compiler.coerce(value, type_)?;\n        if map', 'let _ = type_;\n        let v = value;\n        if map')], BUG),
    ('named spread whole type', [(S, '(param.type_.component_type(), &mut self.bound.spread_named)', '(&param.type_, &mut self.bound.spread_named)')], BUG),
    ('unknown named dropped', [(S, '''            let name = self.compiler.get_name(name_id);
            let e = errors::NameError::NoSuchParameter(name);
            return Err(e.into());
        };
        
        let v''', '''            return Ok(());
        };
        
        let v''')], BUG),
    ('implicit overrides', [(S, 'if !param.is_implicit || self.bound.map.contains_key(&param.name_id) {', 'if !param.is_implicit {')], BUG),
    ('implicit for all', [(S, 'if !param.is_implicit || self.bound', 'if self.bound')], BUG),
    ('implicit not coerced', [(S, '            let v = self.compiler.coerce(v, &param.type_)?;\n', '')], BUG),
    ('implicit ignores default', [(S, 'get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))', 'get_implicit(param.name_id, None)')], BUG),
    ('implicit only first', [(S, '            let v = self.compiler.coerce(v, &param.type_)?;\n            self.bound.map.insert(param.name_id, v);\n        }\n        Ok', '            let v = self.compiler.coerce(v, &param.type_)?;\n            self.bound.map.insert(param.name_id, v);\n            break;\n        }\n        Ok')], BUG),
    ('implicit skips defaults', [(S, 'if !param.is_implicit || self.bound', 'if !param.is_implicit || param.default_value.is_some() || self.bound')], BUG),
    ('content replaces', [(S, 'if !content_value.is_unit() {\n                let e', 'if false {\n                let e')], BUG),
    ('content twice overwritten', [(S, CONT, '''        let v = self.compiler.coerce(content_value, &sig.content_param.type_)?;
        if !name_id.is_anonymous() {
            self.bound.map.insert(name_id, v);
        }
        Ok(())
''')], BUG),
    ('content not coerced', [(S, 'let v = self.compiler.coerce(content_value, &sig.content_param.type_)?;\n            if', 'let v = content_value;\n            if')], BUG),
    ('content only when not unit', [(S, 'if !name_id.is_anonymous() {\n                self.bound', 'if !name_id.is_anonymous() && !v.is_unit() {\n                self.bound')], BUG),
    ('default skips first', [(S, '&sig.positional_params[self.bound.positional_arg_count..]', '&sig.positional_params[self.bound.positional_arg_count.max(1)..]')], BUG),
    ('default positional passed over', [(S, '''                let Some(v) = &param.default_value else {
                    let expected''', '''                if param.is_implicit { continue; }
                let Some(v) = &param.default_value else {
                    let expected''')], BUG),
    ('default named replaces', [(S, 'if self.bound.map.contains_key(&param.name_id) { continue; }', 'if self.bound.map.contains_key(&param.name_id) && param.default_value.is_none() { continue; }')], BUG),
    ('missing named unit', [(S, DEFN, '''        for param in sig.named_params.values() {
            if self.bound.map.contains_key(&param.name_id) { continue; }
            let v = param.default_value.as_ref().map(|v| *v.clone()).unwrap_or(Value::UNIT);
            self.bound.map.insert(param.name_id, v);
        }
''')], BUG),
    ('named spread missing', [(S, '''        if let Some(param) = &sig.spread_named_param {
            let v''', '''        if let Some(param) = sig.spread_named_param.as_ref().filter(|_| !self.bound.spread_named.is_empty()) {
            let v''')], BUG),
    ('pos spread type', [(S, SPR, SPR.replace('&param.type_)', '&Type::Any)'))], BUG),
    ('spread arg skips', [(S, 'for v in vs.as_ref().iter().cloned() {', 'for v in vs.as_ref().iter().skip(1).cloned() {')], BUG),
    ('spread arg stops', [(S, '                self.add_positional_arg(v)?;\n            }\n', '                self.add_positional_arg(v)?;\n                if self.bound.positional_arg_count > 100 { break; }\n            }\n')], {}),
    ('dict spread skips', [(S, '                self.add_named_arg(k, v.clone())?;\n', '                if !self.bound.map.contains_key(&k) { self.add_named_arg(k, v.clone())?; }\n')], BUG),
    ('dict spread errors ignored', [(S, 'self.add_named_arg(k, v.clone())?;', 'let _ = self.add_named_arg(k, v.clone());')], BUG),
    ('hint of first', [(S, 'let type_hint = if let Some(param) = sig.positional_params.get(self.bound.positional_arg_count) {', 'let type_hint = if let Some(param) = sig.positional_params.first() {')], BUG),
    ('hint named spread', [(S, '''            let type_hint = if let Some(param) = sig.named_params.get(&arg.name_id) {
                &param.type_
            } else''', '''            let type_hint = ''')], {}),
    ('content hint', [(S, '''            &Type::Any
        } else {
            &sig.content_param.type_
        };''', '''            &Type::Any
        } else {
            &Type::Html
        };''')], BUG),
    ('implicits first', [(F, CALLB, CALLB.replace('        binder.bind_implicit_args()?;\n', '').replace('        for arg', '        binder.bind_implicit_args()?;\n        for arg'))], BUG),
    ('no implicits', [(F, '        binder.bind_implicit_args()?;\n        binder.compile', '        if !call.args.is_empty() { binder.bind_implicit_args()?; }\n        binder.compile')], BUG),
    ('partials dropped', [(F, '''            Func::Bound(f) => f.1.clone(),
''', '''            Func::Bound(f) if !matches!(f.0, Func::Bound(_)) => f.1.clone(),
''')], BUG),
    ('implicit flag ignored', [(F, 'if bind_implicits {', 'if true {')], {}),
    ('implicit flag negated', [(F, 'if bind_implicits {', 'if !bind_implicits {')], BUG),
    ('partial named first only', [(F, 'for (&name_id, arg) in named_args.iter() {', 'for (&name_id, arg) in named_args.iter().take(1) {')], BUG),
    ('partial content dropped', [(F, '''        if !content_arg.is_unit() {
            binder''', '''        if !content_arg.is_unit() && positional_args.is_empty() {
            binder''')], BUG),
    ('native not coerced', [(F, '                    .and_then(|v| self.coerce(v, type_hint))\n', '')], BUG),
    ('bound to original', [(F, 'self.evaluate_func_call_with_bindings(f.0.clone(), bindings, type_hint, call_range)', 'self.evaluate_func_call_with_bindings(f.0.clone(), bindings, &Type::Any, call_range)')], BUG),
    ('param type not optional', [(S, 'let type_ = param.type_annotation.clone()\n            .option_if(param.question_mark);', 'let type_ = param.type_annotation.clone()\n            .option_if(param.question_mark && param.default_value.is_none());')], BUG),
    ('default evaluated as any', [(S, 'self.evaluate_node(v, &type_)', 'self.evaluate_node(v, &Type::Any)')], BUG),
    ('question mark no default', [(S, '.or_else(|| param.question_mark.then_some(Value::UNIT))', '.or_else(|| (param.question_mark && !param.is_implicit).then_some(Value::UNIT))')], BUG),
    ('implicit flag lost', [(S, 'is_implicit: param.is_implicit,', 'is_implicit: param.is_implicit && default_value.is_none(),'), (S, '            default_value,\n        }\n    }\n}\n', '            default_value,\n        }\n    }\n}\n')], BUG),
    ('spread lost', [(S, 'if sig.positional_spread {', 'if sig.positional_spread && sig.named_count == 0 {')], BUG),
    # refactorings
    ('helper implicit', [(S, IMP, '''            self.bind_one(param)?;
'''), (S, '    pub(super) fn bind_implicit_args', '''    fn bind_one(&mut self, param: &FuncParam) -> errors::PapyriResult {
        let missing = !self.bound.map.contains_key(&param.name_id);
        if param.is_implicit && missing {
            let default_value = match &param.default_value {
                Some(v) => Some(v.as_ref().clone()),
                None => None,
            };
            let found = self.compiler.get_implicit(param.name_id, default_value)?;
            let v = self.compiler.coerce(found, &param.type_)?;
            self.bound.map.insert(param.name_id, v);
        }
        Ok(())
    }
    
    pub(super) fn bind_implicit_args'''), (S, '        let sig = self.sig.as_ref();\n        \n        for param in sig.named_params.values() {\n            self.bind_one', '        let sig = self.sig.clone();\n        \n        for param in sig.as_ref().named_params.values() {\n            self.bind_one')], OK),
    ('implicit filter', [(S, '''        for param in sig.named_params.values() {
            if !param.is_implicit || self''', '''        for param in sig.named_params.values().filter(|p| p.is_implicit) {
            if self''')], OK),
    ('positional match', [(S, POS, '''        let i = self.bound.positional_arg_count;
        self.bound.positional_arg_count = i + 1;
        match (sig.positional_params.get(i), &sig.spread_param) {
            (Some(param), _) => {
                let v = self.compiler.coerce(value, &param.type_)?;
                self.bound.map.insert(param.name_id, v);
            },
            (None, Some(param)) => {
                let t = param.type_.component_type();
                self.bound.spread_pos.push(self.compiler.coerce(value, t)?);
            },
            (None, None) => {},
        }
        Ok(())
''')], OK),
    ('positional index', [(S, POS, '''        let i = self.bound.positional_arg_count;
        if i < sig.positional_params.len() {
            let param = &sig.positional_params[i];
            let v = self.compiler.coerce(value, &param.type_)?;
            self.bound.map.insert(param.name_id, v);
        } else if let Some(param) = &sig.spread_param {
            let v = self.compiler.coerce(value, param.type_.component_type())?;
            self.bound.spread_pos.push(v);
        }
        self.bound.positional_arg_count += 1;
        Ok(())
''')], OK),
    ('named separate', [(S, NAMED, '''        let old = match sig.named_params.get(&name_id) {
            Some(param) => {
                let v = self.compiler.coerce(value, &param.type_)?;
                self.bound.map.insert(name_id, v)
            },
            None => match &sig.spread_named_param {
                Some(param) => {
                    let v = self.compiler.coerce(value, param.type_.component_type())?;
                    self.bound.spread_named.insert(name_id, v)
                },
                None => {
                    let name = self.compiler.get_name(name_id);
                    return Err(errors::NameError::NoSuchParameter(name).into());
                },
            },
        };
        match old {
            None => Ok(()),
            Some(_) => {
                let name = self.compiler.get_name(name_id);
                Err(errors::RuntimeError::ParamMultipleValues(name).into())
            },
        }
''')], OK),
    ('content early', [(S, CONT, '''        let bound_before = self.bound.map.contains_key(&name_id);
        if bound_before && content_value.is_unit() {
            return Ok(());
        }
        if bound_before {
            return Err(errors::TypeError::ContentAlreadyBound.into());
        }
        let v = self.compiler.coerce(content_value, &sig.content_param.type_)?;
        if name_id.is_anonymous() { return Ok(()); }
        self.bound.map.insert(name_id, v);
        Ok(())
''')], OK),
    ('defaults by skip', [(S, DEFP, '''        for param in sig.positional_params.iter().skip(self.bound.positional_arg_count) {
            match &param.default_value {
                Some(v) => { self.bound.map.insert(param.name_id, v.as_ref().clone()); },
                None => {
                    let expected_count = sig.positional_params.iter().filter(|p| p.default_value.is_none()).count();
                    let e = errors::TypeError::NotEnoughPositionalArgs(expected_count, self.bound.positional_arg_count);
                    return Err(e.into());
                },
            }
        }
''')], OK),
    ('defaults named if', [(S, DEFN, '''        for param in sig.named_params.values() {
            if !self.bound.map.contains_key(&param.name_id) {
                match &param.default_value {
                    Some(v) => { self.bound.map.insert(param.name_id, (**v).clone()); },
                    None => {
                        let name = self.compiler.get_name(param.name_id);
                        return Err(errors::RuntimeError::ParamMissing(name).into());
                    },
                }
            }
        }
''')], OK),
    ('defaults helper', [(S, '''                let Some(v) = &param.default_value else {
                    let expected''', '''                let d = param.default();
                let Some(v) = d else {
                    let expected'''), (S, '    pub(super) fn with_default', '''    fn default(&self) -> Option<&Box<Value>> {
        self.default_value.as_ref()
    }
    
    pub(super) fn with_default''')], OK),
    ('check early return', [(S, '''        if sig.spread_param.is_none() && self.bound.positional_arg_count > sig.positional_params.len() {
            let e''', '''        let allowed = sig.positional_params.len();
        if sig.spread_param.is_some() || allowed >= self.bound.positional_arg_count {
            return Ok(());
        }
        {
            let e'''), (S, '''            Err(e.into())
        } else {
            Ok(())
        }
    }
    
    pub(super) fn build''', '''            Err(e.into())
        }
    }
    
    pub(super) fn build''')], OK),
    ('spreads swapped', [(S, SPR, ''), (S, '        let content_name_id = sig', SPR + '        \n        let content_name_id = sig')], OK),
    ('call helper', [(F, CALLB, '''        binder.bind_all(call)?;
        binder.build()
'''), (S, '    fn compile_positional_arg', '''    pub(super) fn bind_all(&mut self, call: &ast::FuncCall) -> errors::PapyriResult {
        call.args.iter().try_for_each(|arg| self.compile_arg(arg))?;
        self.bind_implicit_args()?;
        self.compile_content_arg(&call.content)?;
        Ok(())
    }
    
    fn compile_positional_arg''')], OK),
    ('opener helper', [(F, '''    fn bind_call(''', '''    fn open<'a, 'b>(&self, compiler: &'a mut Compiler<'b>) -> super::signature::ParamBinder<'a, 'b> {
        let sig = self.signature();
        let partials = match self {
            Func::Bound(f) => f.1.clone(),
            Func::Native(..) | Func::NonNative(_) => PartialParams::default(),
        };
        partials.open(compiler, sig)
    }
    
    fn bind_call('''), (F, '''        let mut binder = self.get_partials()
            .open(compiler, self.signature());
        
        for arg in call''', '''        let mut binder = self.open(compiler);
        
        for arg in call''')], OK),
    ('spread arg try_for_each', [(S, '''            for v in vs.as_ref().iter().cloned() {
                self.add_positional_arg(v)?;
            }
            Ok(())''', '''            vs.as_ref()
                .iter()
                .try_for_each(|v| self.add_positional_arg(v.clone()))''')], OK),
    ('arg match', [(S, '''        if arg.is_positional() {
            self.compile_positional_arg(arg)
        } else {
            self.compile_named_arg(arg)
        }.map_err''', '''        let positional = arg.is_positional();
        let r = match positional {
            false => self.compile_named_arg(arg),
            true => self.compile_positional_arg(arg),
        };
        r.map_err''')], OK),
    ('param default match', [(S, '''        let default_value = param.default_value.as_ref()
            .and_then(|v| match self.evaluate_node(v, &type_) {
                Ok(v) => Some(v),
                Err(errors::AlreadyReported) => None,
            })
            .or_else(|| param.question_mark.then_some(Value::UNIT))
            .map(Box::new);
''', '''        let mut default_value = None;
        if let Some(v) = &param.default_value {
            default_value = self.evaluate_node(v, &type_).ok();
        }
        if default_value.is_none() && param.question_mark {
            default_value = Some(Value::UNIT);
        }
        let default_value = default_value.map(Box::new);
''')], OK),
    ('call match', [(F, '''        let Some(func) = self.evaluate_name(&call.func, &func_type)?
            .expect_convert::<Option<Func>>() else {
                return self.coerce(Value::UNIT, type_hint)
                    .map_err(|e| self.report(e, call.range));
            };
        
        let bindings = func.bind_call(self, call)
            .map_err(|e| self.report(e, call.range))?;
        self.evaluate_func_call_with_bindings(func, bindings, type_hint, call.range)
''', '''        let value = self.evaluate_name(&call.func, &func_type)?;
        let func: Option<Func> = value.expect_convert();
        match func {
            None => self.coerce(Value::UNIT, type_hint).map_err(|e| self.report(e, call.range)),
            Some(func) => match func.bind_call(self, call) {
                Ok(bindings) => self.evaluate_func_call_with_bindings(func, bindings, type_hint, call.range),
                Err(e) => Err(self.report(e, call.range)),
            },
        }
''')], OK),
]
CASES += [
    ('implicit break', [(S, '                // do nothing\n                continue;', '                // do nothing\n                break;')], BUG),
    ('default break', [(S, 'if self.bound.map.contains_key(&param.name_id) { continue; }', 'if self.bound.map.contains_key(&param.name_id) { break; }')], BUG),
]

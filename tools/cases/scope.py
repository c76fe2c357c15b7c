F = 'src/compiler/frame.rs'
FU = 'src/compiler/func.rs'
M = 'src/compiler/matcher.rs'
V = 'src/compiler/value.rs'
ML = 'src/compiler/module_loader.rs'
ALL = {'P14': 0, 'P15': 0}
EIF = '''        self.call_stack.push(frame);
        let result = f(self);
        self.call_stack.pop();
        result
'''
NN = '''                let frame = f.closure.new_child_frame(bindings, func.clone(), call_range);
                self.evaluate_in_frame(frame, |_self| _self.evaluate_node(f.body.as_ref(), type_hint))
'''
LET = '''        self.evaluate_in_frame(frame, |_self| {
            for &(name_id, ref value) in let_in.vars.iter() {
                let v = _self.evaluate_node(value, &Type::Any)?;
                let range = value.range();
                if do_export { _self.export(name_id, v.clone(), range); }
                _self.set_var(name_id, v, let_in.is_implicit, range);
            }
            _self.evaluate_node(&let_in.child, type_hint)
        })
'''
CASES = [
 ('pop only if no errors', [(F, '        self.call_stack.pop();\n        result', '        if self.ctx.diagnostics.is_empty() { self.call_stack.pop(); }\n        result')], {'P14': 1}),
 ('let early return', [(V, LET, '''        self.call_stack.push(frame);
        for &(name_id, ref value) in let_in.vars.iter() {
            let v = self.evaluate_node(value, &Type::Any)?;
            let range = value.range();
            if do_export { self.export(name_id, v.clone(), range); }
            self.set_var(name_id, v, let_in.is_implicit, range);
        }
        let r = self.evaluate_node(&let_in.child, type_hint);
        self.call_stack.pop();
        r
''')], {'P14': 1, 'P15': 0}),
 ('dynamic scope', [(FU, 'let frame = f.closure.new_child_frame(', 'let frame = self.frame().to_inactive().new_child_frame(')], {'P15': 1}),
 ('dynamic scope for anon', [(FU, 'let frame = f.closure.new_child_frame(bindings', 'let frame = (if f.name_id.is_anonymous() { self.frame().to_inactive() } else { f.closure.clone() }).new_child_frame(bindings')], {'P15': 1}),
 ('capture bottom', [(FU, 'closure: self.frame().to_inactive(),', 'closure: self.call_stack.first().unwrap().to_inactive(),')], {'P15': 1}),
 ('parent first', [(F, '''        if let Some(r) = r {
            Some(r.clone())
        } else {
            self.lexical_parent.as_ref()?.f.borrow().get(name_id, require_implicit)
        }''', '''        let p = self.lexical_parent.as_ref().and_then(|p| p.f.borrow().get(name_id, require_implicit));
        match p {
            Some(p) => Some(p),
            None => r.cloned(),
        }''')], {'P15': 1}),
 ('implicit lost in parent', [(F, '.f.borrow().get(name_id, require_implicit)', '.f.borrow().get(name_id, false)')], {'P15': 1}),
 ('implicit ignored', [(F, '(!require_implicit || self.implicit.contains(&name_id))', '(!require_implicit || !self.implicit.is_empty())')], {'P15': 1}),
 ('always implicit', [(F, 'if implicit { f.implicit.insert(name_id); }', 'if implicit || f.call_is_none { f.implicit.insert(name_id); }'.replace('f.call_is_none', '!f.implicit.is_empty()'))], {'P15': 1}),
 ('importer scope', [(ML, '''        let mut compiler = Compiler::new(self);
        let out''', '''        let mut compiler = Compiler::new(self);
        if let Some(p) = compiler.call_stack.pop() { compiler.call_stack.push(p.to_inactive().new_empty_child_frame()); let q = compiler.call_stack.last().unwrap().to_inactive(); compiler.call_stack.push(q.new_empty_child_frame()); }
        let out''')], {'P14': 1}),
 ('set in outer', [(F, '''        if self.frame().set(name_id, value, implicit) {
            let name''', '''        let target = self.call_stack.iter().rev().find(|f| f.get(name_id, false).is_some()).unwrap_or_else(|| self.frame());
        if target.set(name_id, value, implicit) {
            let name''')], {'P15': 1}),
 ('r inline func', [(FU, NN, '''                let frame = f.closure.new_child_frame(bindings, func.clone(), call_range);
                self.call_stack.push(frame);
                let r = self.evaluate_node(&f.body, type_hint);
                self.call_stack.pop();
                r
''')], ALL),
 ('r enter leave', [(F, EIF, '''        self.enter(frame);
        let result = f(self);
        self.leave();
        result
'''), (F, '    pub(super) fn evaluate_in_frame<T>', '''    fn enter(&mut self, frame: ActiveFrame) {
        self.call_stack.push(frame);
    }
    
    fn leave(&mut self) {
        self.call_stack.pop();
    }
    
    pub(super) fn evaluate_in_frame<T>''')], ALL),
 ('r expect popped', [(F, EIF, '''        self.call_stack.push(frame);
        let result = f(self);
        let popped = self.call_stack.pop();
        debug_assert!(popped.is_some());
        result
''')], ALL),
 ('r get match', [(F, '''        let r = (!require_implicit || self.implicit.contains(&name_id))
            .then(|| self.locals.get(&name_id))
            .flatten();
        if let Some(r) = r {
            Some(r.clone())
        } else {
            self.lexical_parent.as_ref()?.f.borrow().get(name_id, require_implicit)
        }''', '''        if !require_implicit || self.implicit.contains(&name_id) {
            if let Some(v) = self.locals.get(&name_id) {
                return Some(v.clone());
            }
        }
        match &self.lexical_parent {
            Some(p) => p.f.as_ref().borrow().get(name_id, require_implicit),
            None => None,
        }''')], ALL),
 ('r child helper', [(V, '''        let frame = self.frame()
            .to_inactive()
            .new_empty_child_frame();
''', '''        let frame = self.child_of_current();
'''), (M, '''            let frame = self.frame()
                .to_inactive()
                .new_empty_child_frame();
''', '''            let frame = self.child_of_current();
'''), (F, '    pub(super) fn evaluate_in_frame<T>', '''    pub(super) fn child_of_current(&self) -> ActiveFrame {
        let current = self.call_stack.last().unwrap();
        ActiveFrame::new(Some(current.to_inactive()), Dict::default(), None)
    }
    
    pub(super) fn evaluate_in_frame<T>''')], ALL),
 ('r let inline', [(V, LET, '''        self.call_stack.push(frame);
        let r = self.evaluate_let_body(let_in, type_hint, do_export);
        self.call_stack.pop();
        r
'''), (V, '    pub(super) fn evaluate_verbatim', '''    fn evaluate_let_body(&mut self, let_in: &ast::LetIn, type_hint: &Type, do_export: bool) -> errors::Reported<Value> {
        for (name_id, value) in let_in.vars.iter() {
            let v = self.evaluate_node(value, &Type::Any)?;
            if do_export { self.export(*name_id, v.clone(), value.range()); }
            self.set_var(*name_id, v, let_in.is_implicit, value.range());
        }
        self.evaluate_node(&let_in.child, type_hint)
    }
    
    pub(super) fn evaluate_verbatim''')], ALL),
 ('r set entry', [(F, '''        let mut f = self.f.as_ref().borrow_mut();
        if implicit { f.implicit.insert(name_id); }
        f.set(name_id, value)''', '''        let mut f = self.f.borrow_mut();
        let old = f.locals.insert(name_id, value);
        if implicit {
            f.implicit.insert(name_id);
        }
        old.is_some()''')], ALL),
]
GETB = '''        let r = (!require_implicit || self.implicit.contains(&name_id))
            .then(|| self.locals.get(&name_id))
            .flatten();
        if let Some(r) = r {
            Some(r.clone())
        } else {
            self.lexical_parent.as_ref()?.f.borrow().get(name_id, require_implicit)
        }'''
CASES += [
 ('r get loop', [(F, GETB, '''        if let Some(v) = self.get_own(name_id, require_implicit) {
            return Some(v);
        }
        let mut next = self.lexical_parent.clone();
        while let Some(p) = next {
            let frame = p.f.borrow();
            if let Some(v) = frame.get_own(name_id, require_implicit) {
                return Some(v);
            }
            next = frame.lexical_parent.clone();
        }
        None'''), (F, '    fn has(&self', '''    fn get_own(&self, name_id: NameID, require_implicit: bool) -> Option<Value> {
        if require_implicit && !self.implicit.contains(&name_id) { return None; }
        self.locals.get(&name_id).cloned()
    }
    
    fn has(&self''')], ALL),
 ('r get own helper', [(F, GETB, '''        self.get_own(name_id, require_implicit)
            .or_else(|| self.lexical_parent.as_ref().and_then(|p| p.f.borrow().get(name_id, require_implicit)))'''), (F, '    fn has(&self', '''    fn get_own(&self, name_id: NameID, require_implicit: bool) -> Option<Value> {
        if require_implicit && !self.implicit.contains(&name_id) { return None; }
        self.locals.get(&name_id).cloned()
    }
    
    fn has(&self''')], ALL),
]

ML = 'src/compiler/module_loader.rs'
BODY = '''                let index = self.module_cache.set(k.into_boxed_path(), ModuleState::Busy);
                
                // compile with no `out_files`
                let old_out_files = std::mem::take(&mut self.out_files);
                let result = self.load_uncached(&path)
                    .map(|r| (r.out, Rc::new(r.exports)));
                
                self.out_files = old_out_files;
                
                let state = result.as_ref()
                    .cloned()
                    .map_or(ModuleState::Error, ModuleState::Loaded);
                
                self.module_cache.set_by_index(index, state);
                result
'''
CASES = [
 ('key not canonical', [(ML, 'match self.module_cache.get(&k) {', 'match self.module_cache.get(&path) {'), (ML, 'self.module_cache.set(k.into_boxed_path(),', 'self.module_cache.set(path.clone().into_boxed_path(),')], {'P13': 1}),
 ('busy after', [(ML, 'let index = self.module_cache.set(k.into_boxed_path(), ModuleState::Busy);', 'let index = self.module_cache.set(k.into_boxed_path(), ModuleState::NotLoaded);')], {'P13': 1}),
 ('early return on error', [(ML, '''                let result = self.load_uncached(&path)
                    .map(|r| (r.out, Rc::new(r.exports)));
                
                self.out_files = old_out_files;''', '''                let result = self.load_uncached(&path)
                    .map(|r| (r.out, Rc::new(r.exports)));
                if result.is_err() { return result; }
                
                self.out_files = old_out_files;''')], {'P13': 1}),
 ('out files not taken', [(ML, 'let old_out_files = std::mem::take(&mut self.out_files);', 'let old_out_files = None;'), (ML, '                self.out_files = old_out_files;\n', '                if old_out_files.is_some() { self.out_files = old_out_files; }\n')], {'P13': 1}),
 ('error retries', [(ML, '.map_or(ModuleState::Error, ModuleState::Loaded);', '.map_or(ModuleState::NotLoaded, ModuleState::Loaded);')], {'P13': 1}),
 ('restore only on ok', [(ML, '                self.out_files = old_out_files;\n', '                if result.is_ok() { self.out_files = old_out_files; }\n')], {'P13': 1}),
 ('invalidate elsewhere', [(ML, '''        self.source_files.load_from_path(path)
            .map(''', '''        self.module_cache.cache.swap_remove(path);
        self.source_files.load_from_path(path)
            .map(''')], {'P13': 1}),
 ('r helper', [(ML, BODY, '''                let index = self.module_cache.set(k.into_boxed_path(), ModuleState::Busy);
                let result = self.compile_import(&path);
                let state = match &result {
                    Ok(r) => ModuleState::Loaded(r.clone()),
                    Err(_) => ModuleState::Error,
                };
                self.module_cache.set_by_index(index, state);
                result
'''), (ML, '    /// Compiles the standard library, and caches', '''    fn compile_import(&mut self, path: &path::Path) -> PapyriResult<CachedCompileResult> {
        let old_out_files = self.out_files.take();
        let result = match self.load_uncached(path) {
            Ok(r) => Ok((r.out, Rc::new(r.exports))),
            Err(e) => Err(e),
        };
        self.out_files = old_out_files;
        result
    }
    
    /// Compiles the standard library, and caches''')], {'P13': 0}),
 ('r insert twice', [(ML, BODY, '''                self.module_cache.cache.insert(k.clone().into_boxed_path(), ModuleState::Busy);
                let old_out_files = std::mem::replace(&mut self.out_files, None);
                let result = self.load_uncached(&path)
                    .map(|r| (r.out, Rc::new(r.exports)));
                self.out_files = old_out_files;
                let state = if let Ok(r) = &result { ModuleState::Loaded(r.clone()) } else { ModuleState::Error };
                self.module_cache.cache.insert(k.into_boxed_path(), state);
                result
''')], {'P13': 0}),
 ('r if let chain', [(ML, '''            ModuleState::Loaded(cached_result) => Ok(cached_result),
            ModuleState::Busy => Err(ModuleError::CircularImport(path.into()).into()),
            ModuleState::Error => Err(ModuleError::PreviousError(path.into()).into()),
''', '''            ModuleState::Busy => {
                let e = ModuleError::CircularImport(path.into());
                Err(e.into())
            },
            ModuleState::Error => {
                let e = ModuleError::PreviousError(path.into());
                Err(e.into())
            },
            ModuleState::Loaded(cached_result) => Ok(cached_result),
''')], {'P13': 0}),
 ('r inline get', [(ML, '''        match self.module_cache.get(&k) {''', '''        let state = match self.module_cache.cache.get(k.as_path()) {
            Some(s) => s.clone(),
            None => ModuleState::NotLoaded,
        };
        match state {''')], {'P13': 0}),
]

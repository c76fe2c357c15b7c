RP = 'src/utils/relpath.rs'
BN = 'src/bin/papyri.rs'
CX = 'src/compiler/context.rs'
TX = 'src/utils/text.rs'
EX = 'src/compiler/exports.rs'
NA = 'src/compiler/native.rs'
FR = 'src/compiler/frame.rs'
RESET = '''        self.diagnostics.clear();
        self.unique_ids.clear();
'''
CASES = [
 ('no sort', [(RP, '    paths.sort();\n', '    paths.dedup();\n')], {'P22': 1}),
 ('sort one root only', [(RP, '    paths.sort();\n', '    if path.is_absolute() { paths.sort(); }\n')], {'P22': 1}),
 ('sources not sorted', [(BN, '        source_paths.sort();\n', '')], {'P22': 1}),
 ('no reset', [(BN, '        self.ctx.reset();\n', '')], {'P22': 1}),
 ('reset after', [(BN, '        self.ctx.reset();\n', ''), (BN, '            self.write_out_file(&out_path, html)?;\n            }\n', '            self.write_out_file(&out_path, html)?;\n            }\n            self.ctx.reset();\n')], {'P22': 1}),
 ('ids kept', [(CX, '        self.unique_ids.clear();\n', '')], {'P22': 1}),
 ('reset only errors', [(CX, RESET, '        if !self.diagnostics.is_empty() {\n            self.diagnostics.clear();\n            self.unique_ids.clear();\n        }\n')], {'P22': 1}),
 ('global counter', [(TX, '        let mut counter = 2;\n', '        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(2);\n        let mut counter = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n')], {'P22': 1}),
 ('thread local', [(TX, '        let mut counter = 2;\n', '        thread_local! { static N: std::cell::Cell<usize> = const { std::cell::Cell::new(2) }; }\n        let mut counter = N.with(|n| { let k = n.get(); n.set(k + 1); k });\n')], {'P22': 1}),
 ('pid', [(TX, '        let mut counter = 2;\n', '        let mut counter = 2 + std::process::id() as usize % 7;\n')], {'P22': 1}),
 ('env', [(TX, '        let mut counter = 2;\n', '        let mut counter = if std::env::var("PAPYRI_ID").is_ok() { 3 } else { 2 };\n')], {'P22': 1}),
 ('time', [(TX, '        let mut counter = 2;\n', '        let mut counter = 2 + std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs() as usize % 2);\n')], {'P22': 1}),
 ('hash order', [(NA, '            DICT.keys()\n                .copied()\n', '            DICT.keys()\n                .copied()\n                .collect::<std::collections::HashSet<_>>()\n                .into_iter()\n')], {'P22': 1}),
 ('address', [(NA, '            STR.len() as Int\n', '            STR.len() as Int + (STR.as_ptr() as usize % 2) as Int\n')], {'P22': 1}),
 ('address printed', [(NA, '            STR.to_uppercase()\n', '            format!("{:p}", &*STR)\n')], {'P22': 1}),
 # behaviour kept
 ('sort unstable', [(RP, '    paths.sort();\n', '    paths.sort_unstable();\n')], {'P22': 0}),
 ('sort helper', [(RP, '    paths.sort();\n    Ok(paths)', '    Ok(in_order(paths))'), (RP, '/// Returns a list of paths', 'fn in_order(mut paths: Vec<PathBuf>) -> Vec<PathBuf> {\n    paths.sort();\n    paths\n}\n\n/// Returns a list of paths')], {'P22': 0}),
 ('btree', [(RP, '    let mut paths: Vec<_> = walkdir', '    let paths: std::collections::BTreeSet<_> = walkdir'), (RP, '    paths.sort();\n    Ok(paths)', '    Ok(paths.into_iter().collect())')], {'P22': 0}),
 ('reset inline', [(CX, RESET, '        self.unique_ids = text::UniqueIDGenerator::new();\n        self.diagnostics.clear();\n')], {'P22': 0}),
 ('reset earlier', [(BN, '        self.ctx.reset();\n', ''), (BN, '        let out_path = self.get_out_path(src_path, in_dir)?;\n', '        self.ctx.reset();\n        let out_path = self.get_out_path(src_path, in_dir)?;\n')], {'P22': 0}),
 ('hash membership', [(NA, '                LIST.as_ref()\n                    .iter()\n                    .filter(|&v| !v.is_unit())\n', '            let empty: std::collections::HashSet<usize> = LIST.as_ref().iter().enumerate().filter(|(_, v)| v.is_unit()).map(|(i, _)| i).collect();\n                LIST.as_ref()\n                .iter()\n                .enumerate()\n                .filter(|(i, _)| !empty.contains(i))\n                .map(|(_, v)| v)\n')], {'P22': 0}),
 ('listing helper', [(RP, '    let mut paths: Vec<_> = walkdir::WalkDir::new(path)\n        .into_iter()\n', '    let mut paths: Vec<_> = entries(path)\n'), (RP, '/// Returns a list of paths', 'fn entries(path: &Path) -> walkdir::IntoIter {\n    walkdir::WalkDir::new(path)\n        .into_iter()\n}\n\n/// Returns a list of paths')], {'P22': 0}),
]

NA = 'src/compiler/native.rs'
NM = 'src/compiler/names.rs'
SR = 'src/utils/sliceref.rs'
GET = '''        if i >= 0 && i < n {
            Ok(list.get(i as usize).clone())
        } else if i >= -n && i < 0 {
            Ok(list.get((i + n) as usize).clone())
        } else {
            let e = errors::RuntimeError::IndexOutOfRange(i, list.len());
            Err(e.into())
        }'''
ALL = '''            for v in LIST.as_ref() {
                if !compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)? {
                    return Ok(false.into());
                }
            }
            true'''
ANY = '''            for v in LIST.as_ref() {
                if compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)? {
                    return Ok(true.into());
                }
            }
            false'''
FIND = '''                    return Ok(v.clone());'''
ENUM = '''            LIST.as_ref()
                .iter()
                .cloned()
                .enumerate()
                .map(|(i, v)| Some([Value::Int(FROM.checked_add(i as Int)?), v].into()))
                .collect::<Option<Vec<Value>>>()
                .ok_or(errors::RuntimeError::IntegerOverflow)?'''
FILT = '''                let mut out = Vec::new();
                for v in LIST.as_ref() {
                    if compiler.eval_callback::<bool>(f.clone(), v.clone(), call_range)? {
                        out.push(v.clone());
                    }
                }
                out'''
FDEF = '''                    .filter(|&v| !v.is_unit())'''
FLAT = '''                    out.extend(children.as_ref().iter().cloned());'''
FLATL = '''            for child in LIST.as_ref() {
                if let Value::List(children) = child {
                    out.extend(children.as_ref().iter().cloned());
                } else {
                    out.push(child.clone());
                }
            }
            out'''
JOIN = '''                for (i, v) in LIST.into_iter().enumerate() {
                    if i > 0 { out.push(SEP.clone()); }
                    out.push(v);
                }'''
MAP = '''            let mut out = Vec::with_capacity(LIST.len());
            for v in LIST.as_ref() {
                let r: Value = compiler.eval_callback(FUNCTION.clone(), v.clone(), call_range)?;
                out.push(r);
            }
            out'''
SLICE = '''            let a = if start < 0 { 0.max(start + n) } else { start.min(n) };
            let b = if end < 0 { 0.max(end + n) } else { end.min(n) };
            
            LIST.slice(a.min(b) as usize, b as usize)'''
REV = '''            let mut vs = LIST.as_ref().to_vec();
            vs.reverse();
            vs'''
NODES = '''            HTML.nodes()
                .iter()
                .map(Value::from)
                .collect::<Vec<_>>()'''
DGET = '''            let Some(v) = compiler.ctx.string_pool.get_id_if_present(KEY.as_ref())
                .and_then(|key_id| DICT.get(&key_id)) else {
                    let e = errors::NameError::NoSuchAttribute(Type::Any.dict(), KEY);
                    return Err(e.into());
                };
            v.clone()'''
ITEMS = '''            DICT.iter()
                .map(|(&k, v)| [compiler.get_name(k).into(), v.clone()].into())
                .collect::<Vec<Value>>()'''
VALUES = '''            DICT.values()
                .cloned()
                .collect::<Vec<Value>>()'''
KEYS = '''            DICT.keys()
                .copied()
                .map(|k| compiler.get_name(k).into())
                .collect::<Vec<Value>>()'''
CMP = '''            Value::Int(_) => decorated.sort_by_key(|p| p.0.clone().expect_convert::<Int>()),
            Value::Str(_) => decorated.sort_by_key(|p| p.0.clone().expect_convert::<RcStr>()),'''
UND = '''        let mut undecorated: Vec<Value> = decorated.into_iter()
            .map(|p| p.1)
            .collect();
        if reversed { undecorated.reverse(); }'''
PRE = '''        if reversed { decorated.reverse(); }'''
CASES = [
 ('b list get last', [(NM, GET, GET.replace('i >= -n && i < 0', 'i > -n && i < 0'))], {'P24': 1}),
 ('b list get off', [(NM, GET, GET.replace('(i + n)', '(n - 1 + i)'))], {'P24': 1}),
 ('b list get clamp', [(NM, GET, GET.replace('if i >= 0 && i < n {\n            Ok(list.get(i as usize).clone())', 'if i >= 0 && n > 0 {\n            Ok(list.get((i as usize).min(list.len() - 1)).clone())'))], {'P24': 1}),
 ('b list all first', [(NA, ALL, ALL.replace('LIST.as_ref()', 'LIST.as_ref().iter().skip(1)'))], {'P24': 1}),
 ('b list all stop', [(NA, ALL, ALL.replace('return Ok(false.into());', 'break;'))], {'P24': 1}),
 ('b list any empty', [(NA, ANY, ANY.replace('            false', '            LIST.is_empty()'))], {'P24': 1}),
 ('b list find next', [(NA, FIND, '''                    return Ok(LIST.as_ref().last().unwrap().clone());''')], {'P24': 1}),
 ('b list enum cap', [(NA, ENUM, ENUM.replace('.enumerate()', '.take(1000)\n                .enumerate()'))], {'P24': 1}),
 ('b list enum pos', [(NA, ENUM, ENUM.replace('FROM.checked_add(i as Int)', 'FROM.checked_add(i as Int + (FROM < 0) as Int)'))], {'P24': 1}),
 ('b list filter dup', [(NA, FILT, FILT.replace('out.push(v.clone());', 'out.push(v.clone());\n                        if out.len() > 64 { break; }'))], {'P24': 1}),
 ('b list filter drop', [(NA, FILT, FILT.replace('{\n                        out.push', '&& !v.is_unit() {\n                        out.push'))], {'P24': 1}),
 ('b list filter default', [(NA, FDEF, '''                    .filter(|&v| !matches!(v, Value::HTML(h) if h.is_whitespace()))''')], {'P24': 1}),
 ('b list filter default str', [(NA, FDEF, '''                    .filter(|&v| !v.is_unit() && !matches!(v, Value::Str(s) if s.is_empty()))''')], {'P24': 1}),
 ('b list flat rev', [(NA, FLAT, '''                    out.extend(children.as_ref().iter().rev().cloned());''')], {'P24': 1}),
 ('b list flat empty', [(NA, FLATL, FLATL.replace('out.push(child.clone());', 'if !child.is_unit() { out.push(child.clone()); }'))], {'P24': 1}),
 ('b list flat dedup', [(NA, FLATL, FLATL.replace('            out', '            out.dedup();\n            out').replace('            out.dedup();\n            out.extend', '            out.extend'))], {'P24': 1}),
 ('b list join last', [(NA, JOIN, JOIN.replace('if i > 0', 'if i > 1'))], {'P24': 1}),
 ('b list join empty', [(NA, JOIN, JOIN.replace('out.push(v);', 'if !v.is_empty() { out.push(v); }'))], {'P24': 1}),
 ('b list map insert', [(NA, MAP, MAP.replace('out.push(r);', 'out.insert(out.len().saturating_sub(8), r);'))], {'P24': 1}),
 ('b list map unit', [(NA, MAP, MAP.replace('out.push(r);', 'if !r.is_unit() { out.push(r); }'))], {'P24': 1}),
 ('b list map raw', [(NA, MAP, MAP.replace('out.push(r);', 'out.push(if r.is_unit() { v.clone() } else { r });'))], {'P24': 1}),
 ('b list slice end', [(NA, SLICE, SLICE.replace('0.max(end + n)', '0.max(end + n + 1)'))], {'P24': 1}),
 ('b list slice start', [(NA, SLICE, SLICE.replace('start.min(n)', 'start.min(n - 1).max(0)'))], {'P24': 1}),
 ('b list slice cross', [(NA, SLICE, SLICE.replace('LIST.slice(a.min(b) as usize, b as usize)', 'LIST.slice(a.min(b) as usize, a.max(b) as usize)'))], {'P24': 1}),
 ('b list rev none', [(NA, REV, REV.replace('vs.reverse();', 'if vs.len() > 2 { vs.reverse(); }'))], {'P24': 1}),
 ('b list nodes', [(NA, NODES, NODES.replace('.map(', '.filter(|n| !n.is_whitespace())\n                .map('))], {'P24': 1}),
 ('b dict get ci', [(NA, DGET, DGET.replace('KEY.as_ref())\n', 'KEY.trim())\n'))], {'P24': 1}),
 ('b dict values rev', [(NA, VALUES, VALUES.replace('.cloned()', '.rev()\n                .cloned()'))], {'P24': 1}),
 ('b dict items first', [(NA, ITEMS, ITEMS.replace('.map(', '.filter(|(_, v)| !v.is_unit())\n                .map('))], {'P24': 1}),
 ('b sort unstable', [(NA, CMP, CMP.replace('sort_by_key', 'sort_unstable_by_key'))], {'P24': 1}),
 ('b sort reversed late', [(NA, PRE, '')], {'P24': 1}),
 ('b sort abs', [(NA, CMP, CMP.replace('expect_convert::<Int>()', 'expect_convert::<Int>().unsigned_abs()'))], {'P24': 1}),
 ('b sort lower', [(NA, CMP, CMP.replace('expect_convert::<RcStr>()', 'expect_convert::<RcStr>().to_lowercase()'))], {'P24': 1}),
 ('b sort dedup', [(NA, PRE, PRE + '\n        decorated.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);')], {'P24': 1}),
 ('b sort mixed', [(NA, '(Type::Int, Value::Str(_)) | (Type::Str, Value::Int(_))', '(Type::Int, Value::Str(_))')], {'P24': 1}),
 ('b slice len', [(SR, '(self.b - self.a) as usize', 'self.original.len() - self.a as usize')], {'P24': 1}),
 ('b slice sub', [(SR, 'b: self.a + b as u32', 'b: b as u32')], {'P24': 1}),
 ('b slice empty', [(SR, 'self.a == self.b', 'self.b == 0')], {'P24': 1}),
 ('b slice get', [(SR, '&self.original[self.a as usize + i]', '&self.original[i]')], {'P24': 1}),
 ('b slice asref', [(SR, '&self.original[self.a as usize..self.b as usize]', '&self.original[self.a as usize..]')], {'P24': 1}),
 ('b slice eq', [(SR, 'self.as_ref() == other.as_ref()', 'self.len() == other.len() && self.original == other.original')], {'P24': 1}),

 ('r list all iter', [(NA, ALL, '''            let mut result = true;
            for i in 0..LIST.len() {
                let v = LIST.get(i).clone();
                let keep = compiler.eval_callback::<bool>(FUNCTION.clone(), v, call_range)?;
                if !keep {
                    return Ok(Value::Bool(false));
                }
            }
            true''' .replace('let mut result = true;\n            ', ''))], {'P24': 0}),
 ('r list any while', [(NA, ANY, '''            let mut it = LIST.as_ref().iter();
            while let Some(v) = it.next() {
                match compiler.eval_callback::<bool>(FUNCTION.clone(), v.clone(), call_range)? {
                    true => return Ok(Value::Bool(true)),
                    false => {},
                }
            }
            Value::Bool(false)''')], {'P24': 0}),
 ('r list map collect', [(NA, MAP, '''            LIST.as_ref()
                .iter()
                .map(|v| compiler.eval_callback(FUNCTION.clone(), v.clone(), call_range))
                .collect::<errors::PapyriResult<Vec<Value>>>()?''')], {'P24': 0}),
 ('r list map helper', [(NA, MAP, '''            compiler.native_map_impl(FUNCTION, LIST, call_range)?'''), (NA, '    fn native_sorted_impl', '''    fn native_map_impl(&mut self, f: Func, list: List, call_range: SourceRange) -> errors::PapyriResult<List> {
        let mut out: Vec<Value> = Vec::new();
        for v in list.as_ref().iter().cloned() {
            out.push(self.eval_callback(f.clone(), v, call_range)?);
        }
        Ok(out.into())
    }
    
    fn native_sorted_impl''')], {'P24': 0}),
 ('r list filter bool', [(NA, FILT, '''                let mut out = Vec::new();
                for v in LIST.as_ref().iter().cloned() {
                    let keep: bool = compiler.eval_callback(f.clone(), v.clone(), call_range)?;
                    if !keep { continue; }
                    out.push(v);
                }
                out''')], {'P24': 0}),
 ('r list filter default loop', [(NA, '''                LIST.as_ref()
                    .iter()
                    .filter(|&v| !v.is_unit())
                    .cloned()
                    .collect()''', '''                let mut out = Vec::new();
                for v in LIST.as_ref() {
                    if !v.is_unit() { out.push(v.clone()); }
                }
                out''')], {'P24': 0}),
 ('r list flat nested', [(NA, FLATL, '''            for child in LIST.as_ref() {
                match child {
                    Value::List(children) => {
                        for c in children.as_ref() { out.push(c.clone()); }
                    },
                    _ => out.push(child.clone()),
                }
            }
            out''')], {'P24': 0}),
 ('r list flat slice', [(NA, FLAT, '''                    out.extend_from_slice(children.as_ref());''')], {'P24': 0}),
 ('r list enum loop', [(NA, ENUM, '''            let mut out = Vec::with_capacity(LIST.len());
            for (i, v) in LIST.as_ref().iter().enumerate() {
                let k = FROM.checked_add(i as Int)
                    .ok_or(errors::RuntimeError::IntegerOverflow)?;
                out.push(Value::from([Value::Int(k), v.clone()]));
            }
            out''')], {'P24': 0}),
 ('r list join first', [(NA, JOIN, '''                let mut is_first = true;
                for v in LIST {
                    if !is_first { out.push(SEP.clone()); }
                    is_first = false;
                    out.push(v);
                }''')], {'P24': 0}),
 ('r list join nobranch', [(NA, '''            } else if SEP.is_empty() {
                HTML::from_iter(LIST)
            } else {''', '''            } else {''')], {'P24': 0}),
 ('r list rev iter', [(NA, REV, '''            LIST.as_ref()
                .iter()
                .rev()
                .cloned()
                .collect::<Vec<Value>>()''')], {'P24': 0}),
 ('r list get helper', [(NM, GET, '''        let k = if i < 0 { i + n } else { i };
        if k < 0 || k >= n {
            return Err(errors::RuntimeError::IndexOutOfRange(i, list.len()).into());
        }
        Ok(list.get(k as usize).clone())''')], {'P24': 0}),
 ('r list get asref', [(NM, GET, GET.replace('list.get(i as usize).clone()', 'list.as_ref()[i as usize].clone()'))], {'P24': 0}),
 ('r list slice clamp', [(NA, SLICE, '''            let a = (if start < 0 { start + n } else { start }).clamp(0, n);
            let b = (if end < 0 { end + n } else { end }).clamp(a, n);
            LIST.slice(a as usize, b as usize)''')], {'P24': 0}),
 ('r list slice empty', [(NA, SLICE, SLICE.replace('LIST.slice(a.min(b) as usize, b as usize)', '''if a >= b { return Ok(Value::List(Vec::new().into())); }
            LIST.slice(a as usize, b as usize)'''))], {'P24': 0}),
 ('r list find pos', [(NA, FIND, '''                    let found = v.clone();
                    return Ok(found);''')], {'P24': 0}),
 ('r list contains any', [(NA, '''            LIST.as_ref()
                .contains(&PARAM)''', '''            LIST.as_ref()
                .iter()
                .any(|v| *v == PARAM)''')], {'P24': 0}),
 ('r list nodes loop', [(NA, NODES, '''            let mut out = Vec::new();
            for node in HTML.nodes() {
                out.push(Value::from(node));
            }
            out''')], {'P24': 0}),
 ('r dict get match', [(NA, DGET, '''            let key_id = compiler.ctx.string_pool.get_id_if_present(KEY.as_ref());
            match key_id.and_then(|k| DICT.get(&k).cloned()) {
                Some(v) => v,
                None => return Err(errors::NameError::NoSuchAttribute(Type::Any.dict(), KEY).into()),
            }''')], {'P24': 0}),
 ('r dict items loop', [(NA, ITEMS, '''            let mut out: Vec<Value> = Vec::with_capacity(DICT.len());
            for (k, v) in DICT.iter() {
                let name = compiler.get_name(*k);
                out.push(Value::from([Value::from(name), v.clone()]));
            }
            out''')], {'P24': 0}),
 ('r dict keys iter', [(NA, KEYS, '''            DICT.iter()
                .map(|(&k, _)| compiler.get_name(k).into())
                .collect::<Vec<Value>>()''')], {'P24': 0}),
 ('r sort by', [(NA, CMP, '''            Value::Int(_) => decorated.sort_by(|p, q| p.0.clone().expect_convert::<Int>().cmp(&q.0.clone().expect_convert::<Int>())),
            Value::Str(_) => decorated.sort_by_key(|p| p.0.clone().expect_convert::<RcStr>()),''')], {'P24': 0}),
 ('r sort undecorate', [(NA, UND, '''        let mut undecorated = Vec::with_capacity(decorated.len());
        for (_, v) in decorated {
            undecorated.push(v);
        }
        if reversed { undecorated.reverse(); }''')], {'P24': 0}),
 ('r sort if', [(NA, CMP[:0] + '''            let k = key_func.as_ref()
                .map_or_else(
                    || Ok(v.clone()),
                    |f| self.eval_callback::<Value>(f.clone(), v.clone(), call_range),
                )?;''', '''            let k = match &key_func {
                Some(f) => self.eval_callback::<Value>(f.clone(), v.clone(), call_range)?,
                None => v.clone(),
            };''')], {'P24': 0}),
 ('r slice fields', [(SR, '(self.b - self.a) as usize', 'self.b as usize - self.a as usize'), (SR, 'self.a == self.b', 'self.len() == 0'), (SR, '&self.original[self.a as usize + i]', '&self.as_ref()[i]')], {'P24': 0}),
]

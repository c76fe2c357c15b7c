NA = 'src/compiler/native.rs'
NM = 'src/compiler/names.rs'
HI = 'src/compiler/highlight.rs'
PB = 'src/parser/base.rs'
ADD = '''            ARGS.into_iter()
                .try_fold(0, Int::checked_add)
                .ok_or(errors::RuntimeError::IntegerOverflow)?'''
NEG = '''            PARAM.checked_neg()
                .ok_or(errors::RuntimeError::IntegerOverflow)?'''
PARSE = '''            PARAM.parse::<Int>()
                .map_err(errors::RuntimeError::ParseIntError)?'''
ENUM = '''            LIST.as_ref()
                .iter()
                .cloned()
                .enumerate()
                .map(|(i, v)| Some([Value::Int(FROM.checked_add(i as Int)?), v].into()))
                .collect::<Option<Vec<Value>>>()
                .ok_or(errors::RuntimeError::IntegerOverflow)?'''
SLICE = '''            let a = if start < 0 { 0.max(start + n) } else { start.min(n) };
            let b = if end < 0 { 0.max(end + n) } else { end.min(n) };
'''
GET = '''        if i >= 0 && i < n {
            Ok(list.get(i as usize).clone())
        } else if i >= -n && i < 0 {
            Ok(list.get((i + n) as usize).clone())
        } else {
            let e = errors::RuntimeError::IndexOutOfRange(i, list.len());
            Err(e.into())
        }'''
NUM = '''        self.tok_str(token)
            .parse::<i64>()
            .map_err(|e| self.report(SyntaxError::TokenInvalidNumber(e), token.range))'''
CASES = [
 ('add wraps', [(NA, ADD, '            ARGS.into_iter().fold(0, Int::wrapping_add)')], {'P23': 1}),
 ('add saturates', [(NA, ADD, '            ARGS.into_iter().fold(0, Int::saturating_add)')], {'P23': 1}),
 ('add sums', [(NA, ADD, '            ARGS.into_iter().sum::<Int>()')], {'P23': 1}),
 ('add plain', [(NA, ADD, '            { let mut s = 0; for x in ARGS { s += x; } s }')], {'P23': 1}),
 ('add overflow skipped', [(NA, ADD, '            { let mut s: Int = 0; for x in ARGS { if let Some(t) = s.checked_add(x) { s = t; } } s }')], {'P23': 1}),
 ('add overflow stops', [(NA, ADD, '            { let mut s: Int = 0; for x in ARGS { match s.checked_add(x) { Some(t) => s = t, None => break } } s }')], {'P23': 1}),
 ('add overflow zero', [(NA, ADD, '            ARGS.into_iter().try_fold(0, Int::checked_add).unwrap_or(0)')], {'P23': 1}),
 ('neg wraps', [(NA, NEG, '            -PARAM')], {'P23': 1}),
 ('neg default', [(NA, NEG, '            PARAM.checked_neg().unwrap_or(PARAM)')], {'P23': 1}),
 ('parse default', [(NA, PARSE, '            PARAM.parse::<Int>().unwrap_or(0)')], {'P23': 1}),
 ('parse i32', [(NA, PARSE, '            PARAM.parse::<i32>().map_err(errors::RuntimeError::ParseIntError)? as Int')], {'P23': 1}),
 ('parse float', [(NA, PARSE, '            { let r = PARAM.parse::<Int>(); match r { Ok(i) => i, Err(e) => match PARAM.parse::<f64>() { Ok(f) => f as Int, Err(_) => return Err(errors::RuntimeError::ParseIntError(e).into()) } } }')], {'P23': 1}),
 ('enumerate plain', [(NA, ENUM, '            LIST.as_ref().iter().cloned().enumerate().map(|(i, v)| [Value::Int(FROM + i as Int), v].into()).collect::<Vec<Value>>()')], {'P23': 1}),
 ('enumerate cut', [(NA, ENUM, '            LIST.as_ref().iter().cloned().enumerate().map_while(|(i, v)| Some([Value::Int(FROM.checked_add(i as Int)?), v].into())).collect::<Vec<Value>>()')], {'P23': 1}),
 ('lines wrap', [(HI, 'start.checked_add(i as Int)?', 'start.wrapping_add(i as Int)')], {'P23': 1}),
 ('lines plain', [(HI, 'start.checked_add(i as Int)?', 'start + i as Int')], {'P23': 1}),
 ('lines as given', [(HI, 'start.checked_add(i as Int)?', 'start.checked_add(i as Int).unwrap_or(start)')], {'P23': 1}),
 ('lines missing', [(NA, '''            enumerate_lines(lines, first_line_no)
                .ok_or(errors::RuntimeError::IntegerOverflow)?''', '''            enumerate_lines(lines, first_line_no).unwrap_or(HTML::Empty)''')], {'P23': 1}),
 ('slice end', [(NA, 'end.min(n) };', '(end + 1).min(n + 1) - 1 };')], {'P23': 1}),
 ('slice minus', [(NA, SLICE, SLICE.replace('0.max(start + n)', '0.max(n - -start)'))], {'P23': 1}),
 ('slice unchecked cast', [(NA, SLICE, SLICE.replace('0.max(start + n)', '(start + n)'))], {'P23': 1}),
 ('unique u32', [(NA, 'get_unique_id(BASE.as_ref(), MAX_LENGTH as usize)', 'get_unique_id(BASE.as_ref(), MAX_LENGTH as u32 as usize)')], {'P23': 1}),
 ('unique unchecked', [(NA, 'if MAX_LENGTH <= 0 {', 'if MAX_LENGTH == 0 {')], {'P23': 1}),
 ('get abs', [(NM, GET, GET.replace('i >= -n && i < 0', 'i < 0 && i.abs() <= n'))], {'P23': 1}),
 ('get low', [(NM, GET, GET.replace('i >= -n && i < 0', 'i >= -n - 1 && i < 0'))], {'P23': 1}),
 ('literal zero', [(PB, NUM, NUM.replace('.map_err(|e| self.report(SyntaxError::TokenInvalidNumber(e), token.range))', '.or_else(|e| if matches!(e.kind(), std::num::IntErrorKind::PosOverflow) { Ok(i64::MAX) } else { Err(self.report(SyntaxError::TokenInvalidNumber(e), token.range)) })'))], {'P23': 1}),
 ('literal i32', [(PB, NUM, NUM.replace('i64', 'i32').replace('.map_err', '.map(i64::from).map_err'))], {'P23': 1}),
 ('len u16', [(NA, '            STR.len() as Int', '            STR.len() as u16 as Int')], {'P23': 1}),
 # refactorings
 ('r add loop', [(NA, ADD, '            { let mut s: Int = 0; for x in ARGS { s = s.checked_add(x).ok_or(errors::RuntimeError::IntegerOverflow)?; } s }')], {'P23': 0}),
 ('r add match', [(NA, ADD, '            { let mut s: Int = 0; for x in ARGS { match s.checked_add(x) { Some(t) => s = t, None => return Err(errors::RuntimeError::IntegerOverflow.into()) } } s }')], {'P23': 0}),
 ('r add fold option', [(NA, ADD, '            ARGS.into_iter().fold(Some(0), |a: Option<Int>, x| a.and_then(|a| a.checked_add(x))).ok_or(errors::RuntimeError::IntegerOverflow)?')], {'P23': 0}),
 ('r add closure', [(NA, ADD, ADD.replace('Int::checked_add', '|a: Int, b| a.checked_add(b)'))], {'P23': 0}),
 ('r neg match', [(NA, NEG, '            match PARAM.checked_neg() { Some(i) => i, None => return Err(errors::RuntimeError::IntegerOverflow.into()) }')], {'P23': 0}),
 ('r neg guard', [(NA, NEG, '            if PARAM == Int::MIN { return Err(errors::RuntimeError::IntegerOverflow.into()); } -PARAM')], {'P23': 0}),
 ('r neg sub', [(NA, NEG, NEG.replace('PARAM.checked_neg()', 'Int::checked_sub(0, PARAM)'))], {'P23': 0}),
 ('r parse match', [(NA, PARSE, '            match PARAM.parse::<Int>() { Ok(i) => i, Err(e) => return Err(errors::RuntimeError::ParseIntError(e).into()) }')], {'P23': 0}),
 ('r enumerate loop', [(NA, ENUM, '''            let mut out: Vec<Value> = Vec::new();
            for (i, v) in LIST.as_ref().iter().enumerate() {
                let k = FROM.checked_add(i as Int).ok_or(errors::RuntimeError::IntegerOverflow)?;
                out.push([Value::Int(k), v.clone()].into());
            }
            out''')], {'P23': 0}),
 ('r enumerate result', [(NA, ENUM, '''            LIST.as_ref().iter().cloned().enumerate()
                .map(|(i, v)| FROM.checked_add(i as Int).map(|k| [Value::Int(k), v].into()).ok_or(errors::RuntimeError::IntegerOverflow))
                .collect::<Result<Vec<Value>, _>>()?''')], {'P23': 0}),
 ('r lines map', [(HI, 'let line_no = start.checked_add(i as Int)?;', 'let Some(line_no) = start.checked_add(i as Int) else { return None; };')], {'P23': 0}),
 ('r lines counter', [(HI, '''    for (i, line) in lines.into_iter().enumerate() {
        let line_no = start.checked_add(i as Int)?;''', '''    let mut next = Some(start);
    for line in lines {
        let line_no = next?;
        next = line_no.checked_add(1);''')], {'P23': 0}),
 ('r slice helper', [(NA, SLICE, '''            let a = clamp_pos(start, n);
            let b = clamp_pos(end, n);
'''), (NA, 'impl <\'a> Compiler<\'a> {\n', '''fn clamp_pos(p: Int, n: Int) -> Int {
    if p < 0 { 0.max(p + n) } else { p.min(n) }
}

impl <'a> Compiler<'a> {
''')], {'P23': 0}),
 ('r slice clamp', [(NA, SLICE, '''            let a = (if start < 0 { start + n } else { start }).clamp(0, n);
            let b = (if end < 0 { end + n } else { end }).clamp(0, n);
''')], {'P23': 0}),
 ('r get helper', [(NM, GET, '''        let k = if i < 0 { i + n } else { i };
        if k < 0 || k >= n {
            return Err(errors::RuntimeError::IndexOutOfRange(i, list.len()).into());
        }
        Ok(list.get(k as usize).clone())''')], {'P23': 0}),
 ('r get match', [(NM, GET, '''        match i {
            i if (0..n).contains(&i) => Ok(list.get(i as usize).clone()),
            i if (-n..0).contains(&i) => Ok(list.get((n + i) as usize).clone()),
            _ => Err(errors::RuntimeError::IndexOutOfRange(i, list.len()).into()),
        }''')], {'P23': 0}),
 ('r literal match', [(PB, NUM, '''        match self.tok_str(token).parse::<i64>() {
            Ok(i) => Ok(i),
            Err(e) => Err(self.report(SyntaxError::TokenInvalidNumber(e), token.range)),
        }''')], {'P23': 0}),
 ('r unique try', [(NA, '''            if MAX_LENGTH <= 0 {
                let name''', '''            if MAX_LENGTH < 1 {
                let name''')], {'P23': 0}),
]

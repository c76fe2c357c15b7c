NA = 'src/compiler/native.rs'
RX = 'src/compiler/regex_value.rs'
TX = 'src/utils/text.rs'
H = 'src/compiler/html.rs'
F = 'src/compiler/func.rs'
ESC = '''        let mut s = Vec::new();
        self.ctx.render(&h, true, &mut s).unwrap();
        String::from_utf8(s).unwrap()'''
BUG, OK = {'P25': 1}, {'P25': 0}
CASES = [
 ('and or', [(NA, '            A & B', '            A | B')], BUG),
 ('and lhs', [(NA, '            A & B', '            A && (B || A != B)')], BUG),
 ('neg', [(NA, '            !PARAM', '            PARAM')], BUG),
 ('from int', [(NA, 'Value::Int(i) => i != 0,', 'Value::Int(i) => i > 0,')], BUG),
 ('from str', [(NA, 'Value::Str(s) => !s.is_empty(),', 'Value::Str(s) => !s.trim().is_empty(),')], BUG),
 ('from html', [(NA, 'Value::HTML(h) => !h.is_empty(),', 'Value::HTML(h) => !h.is_whitespace(),')], OK),   # content that is text is a string
 ('from html 2', [(NA, 'Value::HTML(h) => !h.is_empty(),', '')], BUG),
 ('from list', [(NA, 'Value::List(vs) => !vs.is_empty(),', 'Value::List(vs) => vs.len() > 1,')], BUG),
 ('from dict', [(NA, '                Value::Dict(vs) => !vs.is_empty(),\n', '')], BUG),
 ('ends swap', [(NA, 'A.ends_with(B.as_ref())', 'B.ends_with(A.as_ref())')], BUG),
 ('starts trim', [(NA, 'A.starts_with(B.as_ref())', 'A.trim_start().starts_with(B.as_ref())')], BUG),
 ('starts ends', [(NA, 'A.starts_with(B.as_ref())', 'A.ends_with(B.as_ref())')], BUG),
 ('str empty', [(NA, '            STR.is_empty()', '            STR.trim().is_empty()')], BUG),
 ('ws any', [(TX, 's.chars().all(|c| c.is_ascii_whitespace())', 's.chars().any(|c| c.is_ascii_whitespace())')], BUG),
 ('ws first', [(TX, 's.chars().all(|c| c.is_ascii_whitespace())', 's.chars().take(64).all(|c| c.is_ascii_whitespace())')], BUG),
 ('ws empty', [(TX, 's.chars().all(|c| c.is_ascii_whitespace())', '!s.is_empty() && s.chars().all(|c| c.is_ascii_whitespace())')], BUG),
 ('len chars', [(NA, 'STR.len() as Int', 'STR.chars().count() as Int')], BUG),
 ('lower ascii', [(NA, 'STR.to_lowercase()', 'STR.to_ascii_lowercase()')], BUG),
 ('trim start', [(NA, '            STR.trim()', '            STR.trim_start()')], BUG),
 ('split n', [(NA, '                .split(SEP.as_ref())', '                .splitn(16, SEP.as_ref())')], BUG),
 ('split term', [(NA, '                .split(SEP.as_ref())', '                .split_terminator(SEP.as_ref())')], BUG),
 ('split filter', [(NA, '                .split(SEP.as_ref())', '                .split(SEP.as_ref())\n                .filter(|s| !s.is_empty())')], BUG),
 ('split rev', [(NA, '                .split(SEP.as_ref())', '                .rsplit(SEP.as_ref())')], BUG),
 ('split swap', [(NA, '            STR.as_ref()\n                .split(SEP.as_ref())', '            SEP.as_ref()\n                .split(STR.as_ref())')], BUG),
 ('escape text', [(NA, 'self.ctx.render(&h, true, &mut s)', 'self.ctx.render(&h, false, &mut s)')], BUG),
 ('escape other', [(NA, 'compiler.escape_html_impl(HTML)', 'compiler.escape_html_impl(if HTML.is_whitespace() { HTML::Whitespace } else { HTML })')], BUG),
 ('html empty', [(H, '        matches!(self, HTML::Empty)\n', '        matches!(self, HTML::Empty | HTML::RawNewline)\n')], BUG),
 ('html ws', [(H, '            HTML::Empty |\n            HTML::Whitespace |\n            HTML::RawNewline => true,\n            HTML::Text(t)', '            HTML::Whitespace |\n            HTML::RawNewline => true,\n            HTML::Text(t)')], BUG),
 ('html ws text', [(H, 'HTML::Text(t) => text::is_whitespace(t),', 'HTML::Text(t) => t.as_ref() == "  ",')], BUG),
 ('fname', [(NA, 'compiler.get_name(FUNCTION.name_id())', 'compiler.get_name(match FUNCTION { Func::Bound(_) => str_ids::FUNCTION, f => f.name_id() })')], BUG),
 ('test', [(RX, 'self.regex.is_match(s)', 'self.regex.find(s).is_some_and(|m| !m.as_str().is_empty())')], BUG),
 ('test at', [(RX, 'self.regex.is_match(s)', 'self.regex.is_match_at(s, s.len().min(1))')], BUG),
 ('count', [(RX, '            .count()', '            .filter(|m| !m.as_str().is_empty())\n            .count()')], BUG),
 ('count split', [(RX, 'self.regex.find_iter(s)\n', 'self.regex.split(s)\n')], BUG),
 ('rsplit', [(RX, 'self.regex.split(s)', 'self.regex.splitn(s, 100)')], BUG),
 ('find all skip', [(RX, '        self.regex.captures_iter(s)\n', '        self.regex.captures_iter(s)\n            .take(1000)\n')], BUG),
 ('numbered skip', [(RX, '                m.iter()\n                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()))\n                    .collect', '                m.iter()\n                    .skip(1)\n                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()))\n                    .collect')], BUG),
 ('numbered flat', [(RX, '                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()))\n                    .collect', '                    .flatten()\n                    .map(|s| s.as_str().into())\n                    .collect')], BUG),
 ('named noskip', [(RX, '                    .skip(1)\n                    .map(|g| g', '                    .skip(0)\n                    .map(|g| g')], BUG),
 ('named default', [(RX, '                    .skip(1)\n                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()));', '                    .skip(1)\n                    .flatten()\n                    .map(|s| s.as_str().into());')], BUG),
 ('simple group', [(RX, 'm.get(0).map_or(', 'm.get(m.len() - 1).map_or(')], BUG),
 ('find none', [(RX, '        self.regex.captures(s).map_or(\n            Value::UNIT,', '        self.regex.captures(s).map_or(\n            s.into(),')], BUG),
 ('kind simple', [(RX, 'regex.captures_len() == 1', 'regex.captures_len() <= 2')], BUG),
 ('kind none', [(RX, 'capture_names().skip(1).all(|n| n.is_none())', 'capture_names().skip(1).any(|n| n.is_none())')], BUG),
 ('kind some', [(RX, 'capture_names().skip(1).all(|n| n.is_some())', 'capture_names().skip(1).any(|n| n.is_some())')], BUG),
 ('names skip', [(RX, '            for name in regex.capture_names().skip(1) {', '            for name in regex.capture_names().skip(1).filter(|n| n.is_some_and(|n| n != "_")) {')], BUG),
 ('names lower', [(RX, 'self.ctx.string_pool.insert(name)', 'self.ctx.string_pool.insert_lowercase(name)')], BUG),
 ('compile trim', [(RX, 'regex::Regex::new(regex_str)', 'regex::Regex::new(regex_str.trim())')], BUG),
 ('names sort', [(RX, 'RegexKind::NamedGroups(names.into_boxed_slice())', 'names.reverse();\n            RegexKind::NamedGroups(names.into_boxed_slice())')], BUG),
 # same behaviour
 ('and if', [(NA, '            A & B', '            if A { B } else { false }')], OK),
 ('and and', [(NA, '            A & B', '            A && B')], OK),
 ('and morgan', [(NA, '            A & B', '            !(!A | !B)')], OK),
 ('or or', [(NA, '            A | B', '            A || B')], OK),
 ('or if', [(NA, '            A | B', '            if B { return Ok(true.into()); }\n            A')], OK),
 ('from len', [(NA, 'Value::List(vs) => !vs.is_empty(),', 'Value::List(vs) => vs.len() > 0,')], OK),
 ('from guard', [(NA, '                Value::Int(i) => i != 0,\n', '                Value::Int(0) => false,\n')], OK),
 ('from neq', [(NA, 'Value::Str(s) => !s.is_empty(),', 'Value::Str(s) => s.as_ref() != "",')], OK),
 ('from fallthrough', [(NA, '                _ => true,\n            }', '                Value::Regex(_) | Value::Func(_) => true,\n            }')], OK),
 ('from matches', [(NA, 'Value::HTML(h) => !h.is_empty(),', 'Value::HTML(h) => !matches!(h, HTML::Empty),')], OK),
 ('str empty len', [(NA, '            STR.is_empty()', '            STR.len() == 0')], OK),
 ('ws bytes', [(TX, 's.chars().all(|c| c.is_ascii_whitespace())', 's.bytes().all(|c| c.is_ascii_whitespace())')], OK),
 ('ws any not', [(TX, 's.chars().all(|c| c.is_ascii_whitespace())', '!s.chars().any(|c| !c.is_ascii_whitespace())')], OK),
 ('ws for', [(TX, 's.chars().all(|c| c.is_ascii_whitespace())', 'for c in s.chars() {\n        if !c.is_ascii_whitespace() { return false; }\n    }\n    true')], OK),
 ('split for', [(NA, '            STR.as_ref()\n                .split(SEP.as_ref())\n                .map(Value::from)\n                .collect::<Vec<Value>>()', '            let mut out: Vec<Value> = Vec::new();\n            for part in STR.split(SEP.as_ref()) {\n                out.push(part.into());\n            }\n            out')], OK),
 ('lower let', [(NA, 'STR.to_lowercase()', 'let s = STR.as_ref();\n            s.to_lowercase()')], OK),
 ('escape inline', [(NA, ESC, ESC.replace('let mut s = Vec::new();', 'let mut s: Vec<u8> = Vec::with_capacity(64);').replace('String::from_utf8(s).unwrap()', 'String::from_utf8(s).expect("rendered text is text")'))], OK),
 ('html empty match', [(H, '        matches!(self, HTML::Empty)\n', '        match self {\n            HTML::Empty => true,\n            _ => false,\n        }\n')], OK),
 ('html ws seq', [(H, '            // a sequence cannot be pure whitespace, since it would be\n            // collapsed to a single text node.\n            _ => false,', '            HTML::Tag(_) | HTML::Sequence(_) => false,')], OK),
 ('name let', [(NA, 'compiler.get_name(FUNCTION.name_id())', 'let id = FUNCTION.name_id();\n            compiler.get_name(id)')], OK),
 ('test find', [(RX, 'self.regex.is_match(s)', 'self.regex.find(s).is_some()')], OK),
 ('find match', [(RX, '        self.regex.captures(s).map_or(\n            Value::UNIT,\n            |m| self.kind.captures_to_value(m),\n        )', '        match self.regex.captures(s) {\n            Some(m) => self.kind.captures_to_value(m),\n            None => Value::UNIT,\n        }')], OK),
 ('find all for', [(RX, '        self.regex.captures_iter(s)\n            .map(|m| self.kind.captures_to_value(m))\n            .collect()', '        let mut out = Vec::new();\n        for m in self.regex.captures_iter(s) {\n            out.push(self.kind.captures_to_value(m));\n        }\n        out')], OK),
 ('group helper', [(RX, '                m.iter()\n                    .map(|g| g.map_or(Value::UNIT, |s| s.as_str().into()))\n                    .collect::<Vec<_>>()', '                m.iter()\n                    .map(group_to_value)\n                    .collect::<Vec<_>>()'), (RX, 'impl RegexKind {', 'fn group_to_value(g: Option<regex::Match>) -> Value {\n    match g {\n        Some(s) => s.as_str().into(),\n        None => Value::UNIT,\n    }\n}\n\nimpl RegexKind {')], OK),
 ('kind lt', [(RX, 'regex.captures_len() == 1', 'regex.captures_len() < 2')], OK),
 ('kind any', [(RX, 'regex.capture_names().skip(1).all(|n| n.is_none())', '!regex.capture_names().skip(1).any(|n| n.is_some())')], OK),
 ('split no into', [(RX, '            .into_iter()\n            .map(Value::from)', '            .map(Value::from)')], OK),
]

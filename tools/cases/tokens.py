T = 'src/parser/tokenizer.rs'
Q = 'src/parser/queue.rs'
X = 'src/utils/text.rs'
B0, B1, OK = {'P30': 1}, {'P31': 1}, {'P30': 0, 'P31': 0}
LOOP = '''        if kind == TokenKind::Comment && strip_comments {
            continue;
        } else if let Some(prev_token) = tokens.last() {'''
CASES = [
 # P30
 ('comment not stripped html', [(T, 'if kind == TokenKind::Comment && strip_comments {', 'if kind == TokenKind::Comment && (strip_comments || len > 65535) {')], B0),
 ('drops nl', [(T, 'if tok.kind == TokenKind::Newline {\n                    tokens.pop();', 'if tok.kind == TokenKind::Newline && prev_token.kind == TokenKind::Whitespace {\n                    tokens.pop();')], OK),
 ('no collapse', [(T, 'if tok.is_whitespace() && prev_token.is_whitespace() {', 'if tok.is_whitespace() && prev_token.kind == TokenKind::Whitespace {')], B0),
 ('quote after rangle', [(T, '| TokenKind::RAngle | TokenKind::Newline', '| TokenKind::Newline')], B0),
 ('quote after comma', [(T, 'TokenKind::Equals | TokenKind::LBrace', 'TokenKind::Equals | TokenKind::Comma | TokenKind::LBrace')], B0),
 ('end short', [(T, 'end: end as u32,', 'end: (if kind == TokenKind::Comment { end - 1 } else { end }) as u32,')], B0),
 ('end of file lost', [(T, 'while cur < src_str.len() {', 'while cur + 1 < src_str.len() {')], B0),
 ('quote start right', [(T, 'let mut quote_dir = QuoteDir::Left;', 'let mut quote_dir = if strip_comments { QuoteDir::Left } else { QuoteDir::Right };')], B0),
 ('error kept', [(T, 'if let Some(msg) = std::mem::take(&mut error_kind) {', 'if let Some(msg) = error_kind.clone() {')], {}),
 ('error lost', [(T, 'if let Some(msg) = std::mem::take(&mut error_kind) {', 'if let (Some(msg), true) = (std::mem::take(&mut error_kind), !tok.is_whitespace() && kind != TokenKind::RawText) {')], B0),
 ('quote only if first', [(T, '            *dir = quote_dir;', '            *dir = if tokens.is_empty() { QuoteDir::Left } else { quote_dir };')], {}),
 ('no reverse', [(Q, 'tokens.reverse();', 'if tokens.len() > 1 { tokens.reverse(); tokens.swap(0, 0); }')], {}),
 ('kind changed', [(T, 'let tok = Token {\n            kind,', 'let tok = Token {\n            kind: if kind == TokenKind::Number && len > 19 { TokenKind::RawText } else { kind },')], B0),
 ('refactor: loop', [(T, LOOP, '''        let is_stripped = strip_comments && kind == TokenKind::Comment;
        if is_stripped { continue; }
        if let Some(prev_token) = tokens.last() {''')], OK),
 ('refactor: range helper', [(T, '''            range: SourceRange {
                src_id: src.id,
                start: cur as u32,
                end: end as u32,
            }''', 'range: make_range(&src, cur, len),'), (T, 'fn scan_while', 'fn make_range(src: &SourceFile, start: usize, len: usize) -> SourceRange {\n    SourceRange {src_id: src.id, start: start as u32, end: (start + len) as u32}\n}\n\nfn scan_while')], OK),
 ('refactor: dir helper', [(T, '''        quote_dir = match kind {''', '''        quote_dir = dir_after(kind, quote_dir);
        let _ = match kind {'''), (T, 'fn scan_while', '''fn dir_after(kind: TokenKind, d: QuoteDir) -> QuoteDir {
    if matches!(kind, TokenKind::Comment) { return d; }
    match kind {
        TokenKind::Whitespace | TokenKind::Newline | TokenKind::RAngle | TokenKind::LSqb => QuoteDir::Left,
        TokenKind::LPar | TokenKind::LBrace | TokenKind::Equals => QuoteDir::Left,
        _ => QuoteDir::Right,
    }
}

fn scan_while''')], OK),
 ('refactor: white', [(T, '''            if tok.is_whitespace() && prev_token.is_whitespace() {
                if tok.kind == TokenKind::Newline {
                    tokens.pop();
                } else {
                    continue;
                }
            }''', '''            let both = prev_token.is_whitespace() && tok.is_whitespace();
            if both && tok.kind != TokenKind::Newline { continue; }
            if both { tokens.pop(); }''')], OK),
 ('refactor: push shared', [(T, '''        if let Some(msg) = std::mem::take(&mut error_kind) {
            diagnostics.report_static(msg, src.clone(), tok.range);
        }''', '''        match error_kind.take() {
            Some(msg) => diagnostics.report_static(msg, src.clone(), tok.range),
            None => {},
        }''')], OK),
 ('refactor: while let', [(T, 'while cur < src_str.len() {', 'loop {\n        if cur >= src_str.len() { break; }')], OK),
 # P31
 ('raw percent', [(T, "'|' | '#' | '@' | '$'", "'|' | '#' | '@' | '%' | '$'")], B1),
 ('raw slash', [(T, "'!' | '?' | '/' |", "'!' | '?' |")], B1),
 ('hex escape digit', [(T, 'digits.chars().all(|c| c.is_ascii_hexdigit())', 'digits.chars().all(|c| c.is_ascii_alphanumeric())')], B1),
 ('hex escape any', [(T, 'digits.chars().all(|c| c.is_ascii_hexdigit())', 'digits.chars().any(|c| c.is_ascii_hexdigit())')], B1),
 ('entity at newline', [(T, "|c| !c.is_ascii_whitespace() && c != ';'", "|c| c != '\\n' && c != ';'")], B1),
 ('entity digit', [(T, "Some('a'..='z' | 'A'..='Z' | '#')", "Some('a'..='z' | 'A'..='Z' | '0'..='9' | '#')")], B1),
 ('paragraph 3', [(T, ".filter(|c| *c == '\\n').count() >= 2", ".filter(|c| *c == '\\n').count() > 2")], B1),
 ('paragraph any', [(T, ".filter(|c| *c == '\\n').count() >= 2", ".filter(|c| c.is_ascii_control()).count() >= 2")], B1),
 ('comment to cr', [(T, "scan_while(&src[1..], |c| c != '\\n')", "scan_while(&src[1..], |c| c != '\\n' && c != '\\r')")], B1),
 ('comment break', [(T, 'let len = if is_paragraph_break(&src[i..j]) { i } else { j };', 'let len = if is_paragraph_break(&src[..j]) { i } else { j };')], {}),
 ('keyword', [(T, '"implicit" => TokenKind::Keyword(Keyword::Implicit),', '"implicit" | "Implicit" => TokenKind::Keyword(Keyword::Implicit),')], B1),
 ('true case', [(T, '"True" => TokenKind::Boolean(true),', '"True" | "TRUE" => TokenKind::Boolean(true),')], B1),
 ('verbatim multi', [(T, 'else if open_delim_len < 3 &&', 'else if open_delim_len < 2 &&')], B1),
 ('verbatim content', [(T, 'src[open_delim_len..close_delim_start].contains', 'src[..close_delim_start].contains')], B1),
 ('verbatim close', [(T, 'scan_while(&src[close_delim_start + open_delim_len..], |c| c == \'`\');', 'scan_while(&src[close_delim_start + open_delim_len..], |c| c == \'`\').min(64);')], B1),
 ('html comment', [(T, 'Some(content_len) => content_len + 7,', 'Some(content_len) => content_len + 7 - usize::from(content_len == 0),')], B1),
 ('html comment find', [(T, 'src[4..].find("-->")', 'src[2..].find("-->").map(|n| n.saturating_sub(2))')], B1),
 ('close tag space', [(T, "if src[2 + ident_len..].starts_with('>') {", "if src[2 + ident_len..].starts_with('>') || src[2 + ident_len..].starts_with(\" >\") {")], B1),
 ('ident cont', [(X, "c.is_ascii_alphanumeric() || c == '_'\n}", "c.is_alphanumeric() || c == '_'\n}")], B1),
 ('minus number', [(T, "'-' if matches!(chars.next(), Some('0'..='9'))", "'-' if matches!(chars.next(), Some('1'..='9'))")], B1),
 ('escape space err', [(T, "Some('\\n') => {", "Some('\\n' | '\\r') => {")], B1),
 ('coalesce', [(T, '\'?\' => if src.starts_with("?::")', '\'?\' => if src.starts_with("?:")')], B1),
 ('refactor: class', [(T, "'0'..='9' => {", "c if c.is_ascii_digit() => {")], OK),
 ('refactor: scan loop', [(T, '''    src.find(|c| !f(c))
        .unwrap_or(src.len())''', '''    match src.find(|c| !f(c)) {
        Some(i) => i,
        None => src.len(),
    }''')], OK),
 ('refactor: para', [(T, ".filter(|c| *c == '\\n').count() >= 2", ".filter(|&c| c == '\\n').count() > 1")], OK),
 ('refactor: dots', [(T, '\'.\' => if src.starts_with("...") { (3, TokenKind::Ellipsis) } else { (1, TokenKind::Dot) },', "'.' if src.starts_with(\"...\") => (3, TokenKind::Ellipsis),\n        '.' => (1, TokenKind::Dot),")], OK),
 ('refactor: entity', [(T, '''            if src[len..].starts_with(';') {
                len += 1;
            } else {
                on_error(errors::SyntaxError::TokenEntityMissingSemicolon);
            }''', '''            let closed = src[len..].starts_with(";");
            if !closed { on_error(errors::SyntaxError::TokenEntityMissingSemicolon); }
            if closed { len += 1; }''')], OK),
 ('refactor: verbatim helper', [(T, '''            let is_multiline = if src.starts_with("```") { VerbatimKind::Multiline } else { VerbatimKind::Simple };''', '''            let is_multiline = if open_delim_len < 3 { VerbatimKind::Simple } else { VerbatimKind::Multiline };''')], OK),
 ('refactor: raw', [(T, '_ => !text::is_ident_cont(c) && !c.is_ascii_whitespace(),', "'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => false,\n        ' ' | '\\t' | '\\n' | '\\r' | '\\x0c' => false,\n        _ => true,")], OK),
 ('refactor: scan helper', [(T, '            let len = 1 + scan_while(&src[1..], text::is_ident_cont);\n            let kind = match &src[..len] {', '            let len = ident_len(src, 0);\n            let kind = match &src[..len] {'), (T, 'fn is_raw_text', 'fn ident_len(src: &str, start: usize) -> usize {\n    1 + scan_while(&src[start + 1..], text::is_ident_cont)\n}\n\nfn is_raw_text')], OK),
]

T = 'src/parser/text.rs'
B = 'src/parser/base.rs'
CASES = [
    ('x-bar-itself', [(T, 'TokenKind::Bar => Some("\\u{2060}"),', 'TokenKind::Bar => Some(self.tok_str(tok)),')], {'P32': 1}),
    ('x-quote-swapped', [(T, '(QuoteKind::Single, QuoteDir::Left) => "\\u{2018}"', '(QuoteKind::Single, QuoteDir::Left) => "\\u{2019}"')], {'P32': 1}),
    ('x-rangle-stops', [(T, 'TokenKind::LAngle => false,\n', 'TokenKind::LAngle | TokenKind::RAngle => false,\n')], {'P32': 1}),
    ('x-langle-taken', [(T, '            TokenKind::LAngle => false,\n            _ => if', '            _ => if')], {'P32': 1}),
    ('x-longest-off', [(T, '.match_kind(MatchKind::LeftmostLongest)', '.match_kind(MatchKind::LeftmostFirst)')], {'P32': 0}),
    ('x-first-reordered', [(T, '.match_kind(MatchKind::LeftmostLongest)', '.match_kind(MatchKind::LeftmostFirst)'), (T, '            "---", // em dash\n            "--", // en dash\n', '            "--", // en dash\n            "---", // em dash\n'), (T, '        "\\u{2014}", // em dash\n        "\\u{2013}", // en dash\n', '        "\\u{2013}", // en dash\n        "\\u{2014}", // em dash\n')], {'P32': 1}),
    ('x-standard', [(T, '.match_kind(MatchKind::LeftmostLongest)', '.match_kind(MatchKind::Standard)')], {'P32': 1}),
    ('x-case', [(T, '.match_kind(MatchKind::LeftmostLongest)', '.match_kind(MatchKind::LeftmostLongest)\n        .ascii_case_insensitive(true)')], {'P32': 1}),
    ('x-swapped-arrows', [(T, '"\\u{2190}", // left arrow\n        "\\u{2192}", // right arrow', '"\\u{2192}", // left arrow\n        "\\u{2190}", // right arrow')], {'P32': 1}),
    ('x-minus-seven', [(T, '"\\u{2212}7"', '"\\u{2212}6"')], {'P32': 1}),
    ('x-twice-per-token', [(T, 'if let Some(t) = _self.token_text(tok) { text += t; true }', 'if let Some(t) = _self.token_text(tok) { text += &substitutions(t); true }')], {'P32': 1}),
    ('x-no-subst-single', [(T, '        text = substitutions(&text);\n', '        if range.end > first_token.range.end { text = substitutions(&text); }\n')], {'P32': 1}),
    ('x-twice', [(T, '        text = substitutions(&text);\n', '        text = substitutions(&substitutions(&text));\n')], {'P32': 0}),
    ('x-hex-from-three', [(T, '&s[2..], 16', '&s[3..], 16')], {'P32': 1}),
    ('x-radix', [(T, '&s[2..], 16', '&s[2..], 10')], {'P32': 1}),
    ('x-u-upper', [(T, "'x' | 'u' | 'U' => {", "'x' | 'u' => {")], {'P32': 1}),
    ('x-r', [(T, "            't' => '\\t',", "            't' => '\\t',\n            '0' => '\\0',")], {'P32': 1}),
    ('x-bad-escape-silent', [(T, "                        self.report(SyntaxError::TokenInvalidEscape, tok.range);\n", "")], {'P32': 1}),
    ('x-entity-first', [(T, 'if decoded.len() == 1 {', 'if !decoded.is_empty() {')], {'P32': 1}),
    ('x-entity-last', [(T, 'decoded[0]\n', 'decoded[decoded.len() - 1]\n')], {'P32': 0}),
    ('x-entity-amp', [(T, "            char::REPLACEMENT_CHARACTER\n        }\n    }\n    \n    /// Decodes an escape", "            '&'\n        }\n    }\n    \n    /// Decodes an escape")], {'P32': 1}),
    ('x-swap-decoders', [(B, "                let c = self.unescape_char(tok);\n                Ok(AST::Char(c, tok.range))\n            },\n            TokenKind::Entity => {\n                let c = self.decode_entity(tok);", "                let c = self.unescape_char(tok);\n                Ok(AST::Char(c, tok.range))\n            },\n            TokenKind::Entity => {\n                let c = self.unescape_char(tok);")], {'P32': 1}),
    # behaviour kept
    ('ok-slice-pattern', [(T, "        if decoded.len() == 1 {\n            decoded[0]\n        } else {", "        if let [c] = decoded.as_slice() {\n            *c\n        } else {")], {'P32': 0}),
    ('ok-chars-next', [(T, "match s.chars().nth(1).unwrap() {", "let mut cs = s.chars();\n        cs.next();\n        match cs.next().unwrap() {")], {'P32': 0}),
    ('ok-skip', [(T, "match s.chars().nth(1).unwrap() {", "match s.chars().skip(1).next().unwrap() {")], {'P32': 0}),
    ('ok-slice-next', [(T, "match s.chars().nth(1).unwrap() {", "match s[1..].chars().next().unwrap() {")], {'P32': 0}),
    ('ok-from-u32-ok-or', [(T, """                match char::from_u32(char_code) {
                    Some(c) => c,
                    None => {
                        self.report(SyntaxError::TokenInvalidEscape, tok.range);
                        char::REPLACEMENT_CHARACTER
                    },
                }
""", """                char::from_u32(char_code).unwrap_or_else(|| {
                    self.report(SyntaxError::TokenInvalidEscape, tok.range);
                    char::REPLACEMENT_CHARACTER
                })
""")], {'P32': 0}),
    ('ok-while-peek', [(T, """        while let Some(tok) = self.poll_if(|_self, tok| match tok.kind {
            TokenKind::LAngle => false,
            _ => if let Some(t) = _self.token_text(tok) { text += t; true } else { false },
        }) {
            range.end = tok.range.end;
        }
""", """        while let Some(tok) = self.poll_if(|_self, tok| tok.kind != TokenKind::LAngle && _self.token_text(tok).is_some()) {
            if let Some(t) = self.token_text(tok) {
                text.push_str(t);
            }
            range.end = tok.range.end;
        }
""")], {'P32': 0}),
    ('ok-one-decoder', [(T, """    /// Parses literal text starting""", """    pub(super) fn literal_char(&mut self, tok: Token) -> char {
        if tok.kind == TokenKind::Escape { self.unescape_char(tok) } else { self.decode_entity(tok) }
    }
    
    /// Parses literal text starting"""), (B, "let c = self.unescape_char(tok);", "let c = self.literal_char(tok);"), (B, "let c = self.decode_entity(tok);", "let c = self.literal_char(tok);")], {'P32': 0}),
    ('ok-new-string', [(T, """        let mut text = self.token_text(first_token)
            .unwrap_or_else(|| self.ice_at("invalid text token", first_token.range))
            .to_string();
""", """        let mut text = String::new();
        match self.token_text(first_token) {
            Some(t) => text.push_str(t),
            None => self.ice_at("invalid text token", first_token.range),
        }
""")], {'P32': 0}),
    ('ok-vec-pieces', [(T, """        let mut text = self.token_text(first_token)
            .unwrap_or_else(|| self.ice_at("invalid text token", first_token.range))
            .to_string();
""", """        let mut pieces: Vec<String> = vec![self.token_text(first_token)
            .unwrap_or_else(|| self.ice_at("invalid text token", first_token.range))
            .to_string()];
"""), (T, "{ text += t; true }", "{ pieces.push(t.to_string()); true }"), (T, "        text = substitutions(&text);\n", "        let text = substitutions(&pieces.concat());\n")], {'P32': 0}),
    ('ok-pairs', [(T, "    TEXT_SUBS.replace_all(s, &[", "    let with = [")  , (T, '        "\\u{00A0}", // non-breaking space\n    ])', '        "\\u{00A0}", // non-breaking space\n    ];\n    TEXT_SUBS.replace_all(s, &with)')], {'P32': 0}),
    ('ok-build-var', [(T, """    || AhoCorasickBuilder::new()
        .match_kind(MatchKind::LeftmostLongest)
        .build([""", """    || {
        let mut builder = AhoCorasickBuilder::new();
        builder.match_kind(MatchKind::LeftmostLongest);
        builder.dfa(true);
        builder.build([""") , (T, '            "~", // non-breaking space\n        ])\n', '            "~", // non-breaking space\n        ])\n    }\n')], {'P32': 0}),
]

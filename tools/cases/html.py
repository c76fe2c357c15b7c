H = 'src/compiler/html.rs'
BUG = {'P18': 1}
OK = {'P18': 0}
CLOSE = '''        let mut nodes = std::mem::take(&mut self.current_text_node);
        if nodes.len() >= 2 {
            let mut s = "".to_string();
            for node in nodes.into_iter() {
                match node {
                    HTML::Text(t) => s += t.as_ref(),
                    HTML::Whitespace => s += " ",
                    HTML::RawNewline => s += "\\n",
                    _ => errors::ice("Not a text node"),
                }
            }
            self.children.push(s.into());
        } else if let Some(node) = nodes.pop() {
            self.children.push(node);
        }
'''
PUSH = '''        match child {
            HTML::Empty => {},
            HTML::Sequence(grandchildren) => {
                for grandchild in grandchildren.iter().cloned() {
                    self.push(grandchild);
                }
            },
            HTML::Tag(_) => {
                self.close_text_node();
                self.children.push(child);
            },
            _ => {
                self.current_text_node.push(child);
            },
        }
'''
BUILD = '''        self.close_text_node();
        if self.children.len() >= 2 {
            HTML::Sequence(Rc::from(self.children))
        } else {
            self.children.pop().unwrap_or(HTML::Empty)
        }
'''
CASES = [
 ('text newline', [(H, '            "\\n" => HTML::RawNewline,\n', '')], BUG),
 ('text space', [(H, '            " " => HTML::Whitespace,\n', '            "  " => HTML::Whitespace,\n')], BUG),
 ('empty kept', [(H, '            HTML::Empty => {},\n            HTML::Sequence(grand', '            HTML::Sequence(grand')], BUG),
 ('seq single', [(H, 'self.children.len() >= 2', 'self.children.len() >= 1')], BUG),
 ('nested', [(H, '                for grandchild in grandchildren.iter().cloned() {\n                    self.push(grandchild);\n                }\n', '                self.close_text_node();\n                if grandchildren.iter().any(HTML::is_block) {\n                    self.children.push(HTML::Sequence(grandchildren));\n                } else {\n                    for grandchild in grandchildren.iter().cloned() {\n                        self.push(grandchild);\n                    }\n                }\n')], BUG),
 ('skip last', [(H, 'for grandchild in grandchildren.iter().cloned() {', 'for grandchild in grandchildren.iter().skip(1).cloned() {')], BUG),
 ('flatten whitespace dropped', [(H, '                    self.push(grandchild);\n', '                    if !matches!(grandchild, HTML::RawNewline) { self.push(grandchild); }\n')], BUG),
 ('tag no flush', [(H, '                self.close_text_node();\n                self.children.push(child);', '                self.children.push(child);')], BUG),
 ('tag flush after', [(H, '                self.close_text_node();\n                self.children.push(child);', '                self.children.push(child);\n                self.close_text_node();')], BUG),
 ('no flush at end', [(H, '    fn build(mut self) -> HTML {\n        self.close_text_node();', '    fn build(mut self) -> HTML {\n        if !self.children.is_empty() { self.close_text_node(); }')], BUG),
 ('newline joined as space', [(H, 'HTML::RawNewline => s += "\\n"', 'HTML::RawNewline => s += " "')], BUG),
 ('join 3', [(H, 'if nodes.len() >= 2 {\n            let mut s', 'if nodes.len() >= 3 {\n            let mut s')], BUG),
 ('buffer kept', [(H, 'let mut nodes = std::mem::take(&mut self.current_text_node);', 'let mut nodes = self.current_text_node.clone();')], BUG),
 ('from_iter filter', [(H, '        for child in iter {\n            builder.push(child);', '        for child in iter {\n            if child.is_whitespace() { continue; }\n            builder.push(child);')], BUG),
 ('whitespace text', [(H, '                self.current_text_node.push(child);\n            },', '                if !matches!(child, HTML::Whitespace) || !matches!(self.current_text_node.last(), Some(HTML::Whitespace)) { self.current_text_node.push(child); }\n            },')], BUG),
 ('whitespace = newline', [(H, '(HTML::RawNewline, HTML::RawNewline) => true,', '(HTML::RawNewline | HTML::Whitespace, HTML::RawNewline | HTML::Whitespace) => true,')], BUG),
 ('seq eq len', [(H, '(HTML::Sequence(s1), HTML::Sequence(s2)) => s1 == s2,', '(HTML::Sequence(s1), HTML::Sequence(s2)) => s1.len() == s2.len() && s1.iter().eq(s2.iter().take(4)),')], BUG),
 ('tag eq attrs', [('src/compiler/tag.rs', '            && self.attributes == other.attributes\n', '            && self.attributes.len() == other.attributes.len()\n')], BUG),
 ('text kind', [('src/compiler/sequence.rs', 'AST::Char(c, ..) => builder.push(self, c.to_string().into())?,', 'AST::Char(c, ..) => builder.push(self, HTML::Text(c.to_string().into()))?,')], BUG),
 ('value text', [('src/compiler/value_convert.rs', '            HTML::RawNewline => "\\n".into(),\n', '')], BUG),
 ('value eq regex', [('src/compiler/value.rs', 'r1.as_str() == r2.as_str()', 'r1.as_str().len() == r2.as_str().len()')], BUG),
 ('value eq dict', [('src/compiler/value.rs', '(Value::Dict(v1), Value::Dict(v2)) => v1 == v2,', '(Value::Dict(v1), Value::Dict(v2)) => v1.len() == v2.len() && v1.iter().all(|(k, _)| v2.contains_key(k)),')], BUG),
 ('value eq list', [('src/compiler/value.rs', '(Value::List(v1), Value::List(v2)) => v1 == v2,', '(Value::List(v1), Value::List(v2)) => v1.as_ref().iter().zip(v2.as_ref()).all(|(a, b)| a == b),')], BUG),
 ('value direct', [('src/compiler/value_convert.rs', '        html.clone().into()\n', '        Value::HTML(html.clone())\n')], BUG),
 ('refactor value', [('src/compiler/value_convert.rs', '            html => Value::HTML(html),\n', '            HTML::Empty | HTML::Tag(..) | HTML::Sequence(..) => Value::HTML(html),\n')], OK),
 ('or ice', [(H, '                    HTML::Whitespace => s += " ",', '                    HTML::Whitespace => s.push(\' \'),')], OK),
 ('refactor if', [(H, '        match s.as_ref() {\n            "" => HTML::Empty,', '        let r = s.as_ref();\n        if r.is_empty() { return HTML::Empty; }\n        match r {')], OK),
 ('refactor take', [(H, BUILD, '''        self.close_text_node();
        match self.children.len() {
            0 => HTML::Empty,
            1 => self.children.remove(0),
            _ => HTML::Sequence(self.children.into()),
        }
''')], OK),
 ('refactor push', [(H, PUSH, '''        if let HTML::Sequence(items) = &child {
            for x in items.as_ref() {
                self.push(x.clone());
            }
            return;
        }
        if matches!(child, HTML::Tag(..)) {
            self.close_text_node();
            self.children.push(child);
        } else if !child.is_empty() {
            self.current_text_node.push(child);
        }
''')], OK),
 ('refactor foreach', [(H, '                for grandchild in grandchildren.iter().cloned() {\n                    self.push(grandchild);\n                }\n', '                grandchildren.iter().for_each(|g| self.push(g.clone()));\n')], OK),
 ('refactor close', [(H, CLOSE, '''        let nodes = std::mem::take(&mut self.current_text_node);
        match nodes.len() {
            0 => {},
            1 => self.children.extend(nodes),
            _ => {
                let mut s = String::new();
                for node in &nodes {
                    let t = match node {
                        HTML::Text(t) => t.as_ref(),
                        HTML::Whitespace => " ",
                        HTML::RawNewline => "\\n",
                        _ => errors::ice("Not a text node"),
                    };
                    s.push_str(t);
                }
                self.children.push(HTML::text(s));
            },
        }
''')], OK),
 ('refactor from_iter', [(H, '        for child in iter {\n            builder.push(child);\n        }\n', '        iter.into_iter().for_each(|c| builder.push(c));\n')], OK),
 ('refactor eq', [(H, '            (HTML::Sequence(s1), HTML::Sequence(s2)) => s1 == s2,\n', '            (HTML::Sequence(s1), HTML::Sequence(s2)) => s1.len() == s2.len() && s1.iter().zip(s2.iter()).all(|(a, b)| a == b),\n')], OK),
 ('refactor join', [(H, CLOSE, '''        let mut nodes = std::mem::take(&mut self.current_text_node);
        if nodes.len() < 2 {
            self.children.extend(nodes.pop());
            return;
        }
        let s: String = nodes.iter()
            .map(|node| match node {
                HTML::Text(t) => t.as_ref(),
                HTML::Whitespace => " ",
                HTML::RawNewline => "\\n",
                _ => errors::ice("Not a text node"),
            })
            .collect();
        self.children.push(s.into());
''')], OK),
]

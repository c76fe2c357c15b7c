R = 'src/compiler/render.rs'
ALL0 = {'P05': 0, 'P06': 0, 'P07': 0, 'P08': 0}
CASES = [
 ('text unescaped', [(R, 'write!(self.writer, "{}", text::encode_entities(t, false))?;', 'write!(self.writer, "{t}")?;')], {'P05': 1}),
 ('attr escape false', [(R, 'text::encode_entities(v, true)', 'text::encode_entities(v, false)')], {'P05': 1}),
 ('escape set swapped', [('src/utils/text.rs', 'if escape_quotes { entity::EntitySet::SpecialChars } else { entity::EntitySet::Html }', 'if escape_quotes { entity::EntitySet::Html } else { entity::EntitySet::Html }')], {'P05': 1, 'P07': 0}),
 ('noascii', [('src/utils/text.rs', 'entity::EntitySet::Html }', 'entity::EntitySet::NoASCII }')], {'P05': 1}),
 ('script raw', [(R, 'self.render(&tag.content)?;', '''if tag.name_id == str_ids::SCRIPT { if let HTML::Text(t) = &tag.content { write!(self.writer, "{t}")?; write!(self.writer, "</script>")?; return Ok(()); } }
        self.render(&tag.content)?;''')], {'P05': 1}),
 ('wbr closed', [('src/utils/taginfo.rs', '''        str_ids::TRACK |
        str_ids::WBR''', '        str_ids::TRACK')], {'P07': 1, 'P05': 0}),
 ('li void', [('src/utils/taginfo.rs', '''        str_ids::TRACK |
''', '        str_ids::TRACK | str_ids::LI |\n')], {'P07': 1}),
 ('empty not closed', [(R, '} else if !taginfo::is_self_closing(tag.name_id) {', '} else if !taginfo::is_self_closing(tag.name_id) && !tag.content.is_empty() {')], {'P07': 1}),
 ('seq skip whitespace', [(R, '                    self.render(child)?;', '                    if child.is_whitespace() { continue; }\n                    self.render(child)?;')], {'P08': 1}),
 ('ws newline dropped io error', [(R, '                writeln!(self.writer)?;\n            },\n            HTML::Empty', '                let _ = writeln!(self.writer);\n            },\n            HTML::Empty')], {'P08': 1}),
 ('text escaped in text mode', [(R, 'write!(self.writer, "{t}")?;', 'write!(self.writer, "{}", text::encode_entities(t, false))?;')], {'P06': 1}),
 ('text mode markup', [(R, 'write!(self.writer, "\\n\\u{2015}\\n\\n")?', 'write!(self.writer, "<hr>")?')], {'P06': 1}),
 ('refactor attr helper', [(R, '''            for (&k, v) in tag.attributes.iter() {
                let attr_name = self.string_pool.get(k)
                    .replace('_', "-");
                write!(self.writer, " {attr_name}")?;
                if let Some(v) = v {
                    write!(self.writer, "=\\"{}\\"", text::encode_entities(v, true))?;
                }
            }
            write!(self.writer, ">")?;
        }
''', '''            self.open_attrs(tag)?;
            self.writer.write_all(b">")?;
        }
'''), (R, 'fn render_tag(', '''fn open_attrs(&mut self, tag: &Tag) -> io::Result<()> {
        tag.attributes.iter().try_for_each(|(k, v)| {
            let attr_name = self.string_pool.get(*k).replace('_', "-");
            match v {
                None => write!(self.writer, " {attr_name}"),
                Some(v) => write!(self.writer, " {}=\\"{}\\"", attr_name, text::encode_entities(v, true)),
            }
        })
    }

    fn render_tag(''')], ALL0),
 ('refactor seq try_for_each', [(R, '''                for child in seq.iter() {
                    self.render(child)?;
                }
''', '''                seq.iter().try_for_each(|child| self.render(child))?;
''')], ALL0),
 ('refactor while let', [(R, '''                for child in seq.iter() {
                    self.render(child)?;
                }
''', '''                let mut it = seq.iter();
                while let Some(child) = it.next() {
                    self.render(child)?;
                }
''')], ALL0),
 ('refactor index loop', [(R, '''                for child in seq.iter() {
                    self.render(child)?;
                }
''', '''                let mut i = 0;
                while i < seq.len() {
                    self.render(&seq[i])?;
                    i += 1;
                }
''')], ALL0),
 ('refactor text escaped var', [(R, '''                if self.as_html {
                    write!(self.writer, "{}", text::encode_entities(t, false))?;
                } else {
                    write!(self.writer, "{t}")?;
                }
''', '''                let out = if self.as_html { text::encode_entities(t, false) } else { t.to_string() };
                self.writer.write_all(out.as_bytes())?;
''')], ALL0),
 ('refactor free fns', [(R, '''            .render(html)
    }''', '''            .render(html)?;
        writer.flush()
    }''')], ALL0),
 ('refactor end tag', [(R, 'write!(self.writer, "</{name}>")?;', 'let close = format!("</{}>", self.string_pool.get(tag.name_id));\n            self.writer.write_all(close.as_bytes())?;')], ALL0),
]

Q = 'src/compiler/sequence.rs'
TI = 'src/utils/taginfo.rs'
H = 'src/compiler/html.rs'
TG = 'src/compiler/tag.rs'
V = 'src/compiler/value.rs'
ML = 'src/compiler/module_loader.rs'
BUG = {'P21': 1}
OK = {'P21': 0}
CASES = [
 ('table figure', [(TI, '            str_ids::FIGURE |\n            str_ids::FORM |\n            str_ids::LI => ContentKind::ALLOW_P', '            str_ids::FORM |\n            str_ids::LI => ContentKind::ALLOW_P')], BUG),
 ('table order', [(TI, '                str_ids::DD,\n                str_ids::DT,', '                str_ids::DT,\n                str_ids::DD,')], BUG),
 ('block', [(TI, '        str_ids::PRE |\n', '')], BUG),
 ('void', [(TI, '        str_ids::WBR\n', '        str_ids::VAR\n')], {}),
 ('void2', [(TI, '        str_ids::TRACK |\n', '')], BUG),
 ('wrap last', [(Q, 'tag_name_ids[0]', 'tag_name_ids[tag_name_ids.len() - 1]')], BUG),
 ('wrap p', [(Q, 'ContentKind::RequireBlock(tag_name_id) | ContentKind::AllowBlock(tag_name_id) => tag_name_id,\n', '')], BUG),
 ('require inline', [(Q, 'matches!(content_kind, ContentKind::RequireInline | ContentKind::RequireInlineNoLineBreaks)', 'matches!(content_kind, ContentKind::RequireInlineNoLineBreaks)')], BUG),
 ('alone require', [(Q, 'if matches!(self.content_kind, ContentKind::AllowBlock(..)) && self.children.is_empty() {', 'if matches!(self.content_kind, ContentKind::AllowBlock(..) | ContentKind::RequireBlock(..)) && self.children.is_empty() {')], BUG),
 ('alone never', [(Q, '&& self.children.is_empty() {', '&& self.children.len() > 1 {')], BUG),
 ('no final close', [(Q, '        self.close_child()?;\n        while', '        while')], BUG),
 ('trim all', [(Q, 'Some(c) if c.is_whitespace()) {', 'Some(c) if c.is_whitespace() || c.is_inline()) {')], BUG),
 ('trim once', [(Q, '        while matches!(self.children.last(), Some(c) if c.is_whitespace()) {', '        if matches!(self.children.last(), Some(c) if c.is_whitespace()) {')], BUG),
 ('no trim', [(Q, '        while matches!(self.children.last(), Some(c) if c.is_whitespace()) {\n            self.children.pop();\n        }\n', '')], BUG),
 ('empty allowed', [(Q, '&& !html.is_empty() {', '&& html.is_block() {')], BUG),
 ('newline', [(Q, '            ContentKind::AllowBlock(..) => {\n                self.close_child()\n', '            ContentKind::AllowBlock(..) => {\n                if self.children.is_empty() { return Ok(()); }\n                self.close_child()\n')], BUG),
 ('newline br', [(Q, 'HTML::tag(str_ids::BR, HTML::Empty)', 'HTML::tag(str_ids::P, HTML::Empty)')], BUG),
 ('newline no error', [(Q, '                Err(errors::TypeError::ParagraphBreakNotAllowed.into())', '                if self.children.is_empty() { return Ok(()); }\n                Err(errors::TypeError::ParagraphBreakNotAllowed.into())')], BUG),
 ('close drops', [(Q, '            if !html.is_empty() {\n                let name_id', '            if !html.is_whitespace() {\n                let name_id')], BUG),
 ('close twice', [(Q, 'if let Some(child) = std::mem::take(&mut self.next_child) {\n            let html = child.into_html()?;', 'if let Some(child) = std::mem::take(&mut self.next_child) {\n            let html = child.into_html().unwrap_or(HTML::Empty);')], BUG),
 ('push order', [(Q, '            self.close_child()?;\n            if !self.children.is_empty() || !child.is_whitespace() {\n                self.children.push(child);\n            }', '            if !self.children.is_empty() || !child.is_whitespace() {\n                self.children.push(child);\n            }\n            self.close_child()?;')], BUG),
 ('push no close', [(Q, '            self.close_child()?;\n            if !self.children.is_empty()', '            if !self.children.is_empty()')], BUG),
 ('allow all inline', [(Q, 'ContentKind::AllowBlock(..) => child.is_block(),', 'ContentKind::AllowBlock(..) => child.is_block() || self.next_child.is_none() && !self.children.is_empty(),')], BUG),
 ('one of block', [(Q, 'ContentKind::RequireOneOf(tag_names) => child.is_all(tag_names),', 'ContentKind::RequireOneOf(tag_names) => child.is_all(tag_names) || child.is_block(),')], BUG),
 ('one of first', [(Q, 'ContentKind::RequireOneOf(tag_names) => child.is_all(tag_names),', 'ContentKind::RequireOneOf(tag_names) => child.is_all(&tag_names[..1]),')], BUG),
 ('child kind', [(Q, 'let child_content_kind = ContentKind::for_(parent_tag);', 'let child_content_kind = ContentKind::RequireInline;')], BUG),
 ('whitespace lost', [(Q, 'self.next_child.is_some() || !child.is_whitespace()', '!child.is_whitespace()')], BUG),
 ('ws kept', [(Q, '            if !self.children.is_empty() || !child.is_whitespace() {', '            {')], {}),
 ('drop ws', [(Q, '            if !self.children.is_empty() || !child.is_whitespace() {', '            if !child.is_whitespace() {')], BUG),
 ('inline child block ok', [(Q, 'if self.require_inline && child.is_block() {', 'if self.require_inline && child.is_block() && self.parent_tag.is_some() {')], BUG),
 ('in tag', [(Q, 'ContentKind::for_(tag_name), Some(tag_name)', 'if sequence.len() > 1 { ContentKind::for_(tag_name) } else { ContentKind::ALLOW_P }, Some(tag_name)')], BUG),
 ('skip first', [(Q, 'for child in sequence {', 'for child in sequence.iter().skip(1) {')], BUG),
 ('stop at error', [(Q, '                self.report(e, child.range());\n            }', '                self.report(e, child.range());\n                break;\n            }')], BUG),
 ('ws text', [(Q, 'AST::Whitespace(..) => builder.push(self, HTML::Whitespace)?,', 'AST::Whitespace(..) => builder.push(self, HTML::RawNewline)?,')], BUG),
 ('char lost', [(Q, 'AST::Char(c, ..) => builder.push(self, c.to_string().into())?,', 'AST::Char(c, ..) => if *c != \'\\n\' { builder.push(self, c.to_string().into())? },')], BUG),
 ('break ignored', [(Q, 'AST::ParagraphBreak(..) => builder.newline()?,', 'AST::ParagraphBreak(..) => { let _ = builder.newline(); },')], BUG),
 ('funcdef content', [(Q, 'self.set_var(def.name_id, f, false, def.signature.range);', 'self.set_var(def.name_id, f, false, def.signature.range);\n                builder.push(self, HTML::Whitespace)?;')], BUG),
 ('group p', [(V, 'self.compile_sequence(children, taginfo::ContentKind::ALLOW_P)', 'self.compile_sequence(children, taginfo::ContentKind::REQUIRE_P)')], BUG),
 ('doc allow', [(ML, '    pub fn compile(&mut self, src: Rc<sourcefile::SourceFile>) -> CompileResult {\n        self._compile(src, taginfo::ContentKind::REQUIRE_P)', '    pub fn compile(&mut self, src: Rc<sourcefile::SourceFile>) -> CompileResult {\n        self._compile(src, taginfo::ContentKind::ALLOW_P)')], BUG),
 ('is_all any', [(H, 'seq.iter().all(|child| child.is_all(allowed_tag_names))', 'seq.iter().any(|child| child.is_all(allowed_tag_names))')], BUG),
 ('is_all text', [(H, '            HTML::Empty => true,\n            _ => false,\n        }\n    }\n    \n    pub(super) fn nodes', '            HTML::Empty | HTML::RawNewline => true,\n            _ => false,\n        }\n    }\n    \n    pub(super) fn nodes')], BUG),
 ('tag other', [(TG, 'self.compile_sequence_in_tag(&tag.children, tag_name_id)', 'self.compile_sequence_in_tag(&tag.children, if attrs.is_empty() { tag_name_id } else { str_ids::ANONYMOUS })')], BUG),
 # same behaviour
 ('table reorder', [(TI, '            str_ids::ARTICLE |\n            str_ids::ASIDE |\n            str_ids::BLOCKQUOTE |', '            str_ids::BLOCKQUOTE |\n            str_ids::ASIDE |\n            str_ids::ARTICLE |')], OK),
 ('close match', [(Q, '        if let Some(child) = std::mem::take(&mut self.next_child) {\n            let html = child.into_html()?;\n            if !html.is_empty() {\n                let name_id = self.content_kind.wrap_with();\n                self.children.push(html.in_tag(name_id));\n            }\n        }\n        Ok(())', '        match self.next_child.take() {\n            None => Ok(()),\n            Some(child) => {\n                let html = child.into_html()?;\n                if html.is_empty() { return Ok(()); }\n                let wrapped = HTML::tag(self.content_kind.wrap_with(), html);\n                self.children.push(wrapped);\n                Ok(())\n            },\n        }')], OK),
 ('allowed helper', [(Q, '        let is_allowed = match self.content_kind {\n            ContentKind::RequireOneOf(tag_names) => child.is_all(tag_names),\n            ContentKind::RequireBlock(..) |\n            ContentKind::AllowBlock(..) => child.is_block(),\n            _ => true,\n        };\n        if is_allowed {', '        if self.is_allowed(&child) {'), (Q, '    fn close_child(&mut self)', '    fn is_allowed(&self, child: &HTML) -> bool {\n        match self.content_kind {\n            ContentKind::RequireOneOf(tag_names) => child.is_all(tag_names),\n            ContentKind::RequireBlock(..) | ContentKind::AllowBlock(..) => child.is_block(),\n            ContentKind::RequireInline | ContentKind::RequireInlineNoLineBreaks | ContentKind::RequireEmpty => true,\n        }\n    }\n    \n    fn close_child(&mut self)')], OK),
 ('trim loop', [(Q, '        while matches!(self.children.last(), Some(c) if c.is_whitespace()) {\n            self.children.pop();\n        }\n', '        loop {\n            match self.children.last() {\n                Some(c) if c.is_whitespace() => { self.children.pop(); },\n                _ => break,\n            }\n        }\n')], OK),
 ('next if let', [(Q, '            self.next_child.get_or_insert_with(|| {\n                let parent_tag = self.content_kind.wrap_with();\n                let child_content_kind = ContentKind::for_(parent_tag);\n                Box::new(SequenceBuilder::new(\n                    child_content_kind,\n                    Some(parent_tag),\n                ))\n            }).push(compiler, child)', '            if self.next_child.is_none() {\n                let parent_tag = self.content_kind.wrap_with();\n                self.next_child = Some(Box::new(SequenceBuilder::new(ContentKind::for_(parent_tag), Some(parent_tag))));\n            }\n            self.next_child.as_mut().unwrap().push(compiler, child)')], OK),
 ('is_all iter', [(H, 'HTML::Tag(tag) => allowed_tag_names.contains(&tag.name_id),', 'HTML::Tag(tag) => allowed_tag_names.iter().any(|n| *n == tag.name_id),')], OK),
 ('is_all loop', [(H, 'HTML::Sequence(seq) => seq.iter().all(|child| child.is_all(allowed_tag_names)),', 'HTML::Sequence(seq) => {\n                for child in seq.iter() {\n                    if !child.is_all(allowed_tag_names) { return false; }\n                }\n                true\n            },')], OK),
 ('newline if', [(Q, '            ContentKind::RequireInlineNoLineBreaks => {\n                Err(errors::TypeError::ParagraphBreakNotAllowed.into())\n            },', '            ContentKind::RequireInlineNoLineBreaks => Err(errors::TypeError::ParagraphBreakNotAllowed.into()),')], OK),
 ('seq match', [(Q, '        builder.into_html().unwrap_or_else(|e| {\n            let range = sequence[0].range().to_end(sequence.last().unwrap().range().end);\n            self.report(e, range);\n            HTML::Empty\n        })', '        match builder.into_html() {\n            Ok(html) => html,\n            Err(e) => {\n                let range = sequence[0].range().to_end(sequence.last().unwrap().range().end);\n                self.report(e, range);\n                HTML::Empty\n            },\n        }')], OK),
 ('require fn', [(Q, '    require_inline: bool,\n', ''), (Q, '            require_inline: matches!(content_kind, ContentKind::RequireInline | ContentKind::RequireInlineNoLineBreaks),\n', ''), (Q, 'if self.require_inline && child.is_block() {', 'if matches!(self.content_kind, ContentKind::RequireInline | ContentKind::RequireInlineNoLineBreaks) && child.is_block() {')], OK),
 ('push early return', [(Q, '            self.close_child()?;\n            if !self.children.is_empty() || !child.is_whitespace() {\n                self.children.push(child);\n            }\n            Ok(())', '            self.close_child()?;\n            if self.children.is_empty() && child.is_whitespace() { return Ok(()); }\n            self.children.push(child);\n            Ok(())')], OK),
]

S = 'src/utils/sourcefile.rs'
K = 'src/errors/sink_base.rs'
SK = 'src/errors/sink.rs'
CX = 'src/compiler/context.rs'
F = 'src/compiler/frame.rs'
FU = 'src/compiler/func.rs'
B = 'src/parser/base.rs'
PF = 'src/parser/func.rs'
TG = 'src/parser/tag.rs'
M = 'src/parser/matcher.rs'
Q = 'src/parser/queue.rs'
A = 'src/parser/ast.rs'
B1, OK = {'P33': 1}, {'P33': 0}
CASES = [
    ('line: column from 0', [(S, 'line += 1; col = 1;', 'line += 1; col = 0;')], B1),
    ('line: first line 0', [(S, 'let mut line = 1;', 'let mut line = 0;')], B1),
    ('line: carriage return', [(S, "if c == '\\n' {", "if c == '\\r' {")], B1),
    ('line: column of tab', [(S, '                    col += 1;', "                    col += if c == '\\t' { 4 } else { 1 };")], B1),
    ('line: one place per character', [(S, 'coords.extend(std::iter::repeat((line, col)).take(c.len_utf8()));', 'coords.push((line, col));')], B1),
    ('line: swapped', [(S, 'repeat((line, col))', 'repeat((col, line))')], B1),
    ('line: resize', [(S, 'coords.extend(std::iter::repeat((line, col)).take(c.len_utf8()));', 'let n = coords.len() + c.len_utf8();\n                coords.resize(n, (line, col));')], OK),
    ('line: match', [(S, "if c == '\\n' {\n                    line += 1; col = 1;\n                } else {\n                    col += 1;\n                }", "match c {\n                    '\\n' => { col = 1; line += 1; },\n                    _ => col += 1,\n                }")], OK),
    ('file: the first', [(S, '        self.files[id.0.get() as usize].clone()', '        self.files[(id.0.get() as usize).min(0)].clone()')], B1),
    ('file: number after', [(S, 'SourceFileID::of(self.files.len() as u32)', 'SourceFileID::of(self.files.len() as u32 + 1)')], B1),
    ('file: path lost', [(S, '            path.to_string_lossy().into(),', '            src.clone().into_boxed_str(),')], B1),
    ('file: name and text swapped', [(S, '            Box::from(path_str),\n            Box::from(src),', '            Box::from(src),\n            Box::from(path_str),')], B1),
    ('file: another file is kept', [(S, '        self.files.push(s.clone());\n        s\n', '        self.files.insert(0, s.clone());\n        s\n')], B1),
    ('shown: column and line', [(K, 'line {line}, col {col}"', 'line {col}, col {line}"')], B1),
    ('shown: the place of the first call', [(K, 'write_trace_line(f, &self.range, in_func)?;', 'write_trace_line(f, trace.first().unwrap_or(&self.range), in_func)?;')], B1),
    ('shown: newest first', [(K, 'for call_range in trace.iter() {', 'for call_range in trace.iter().rev() {')], B1),
    ('shown: own function', [(K, """                write_trace_line(f, call_range, in_func)?;
                in_func = call_range.in_func.as_ref().map(Box::as_ref);
""", """                in_func = call_range.in_func.as_ref().map(Box::as_ref);
                write_trace_line(f, call_range, in_func)?;
""")], B1),
    ('shown: no message', [(K, '            writeln!(f, "{}", self.msg)?;\n        } else {', '        } else {')], B1),
    ('shown: in pieces', [(K, 'write!(f, "    File \\"{}\\", line {line}, col {col}", range.src.path_str)?;', 'f.write_str("    File \\"")?;\n            f.write_str(&range.src.path_str)?;\n            write!(f, "\\", line {line}")?;\n            write!(f, ", col {col}")?;')], OK),
    ('shown: inlined', [(K, """            write_trace_line(f, &self.range, None)?;""", """            let (line, col) = self.range.src.index_to_line_col(self.range.start);
            writeln!(f, "    File \\"{}\\", line {line}, col {col}", self.range.src.path_str)?;""")], OK),
    ('made: end', [(K, """            src,
            start: range.start,
            //end: range.end,
            in_func: None,""", """            src,
            start: range.end,
            //end: range.end,
            in_func: None,""")], B1),
    ('made: end of call', [(K, """            src,
            start: range.start,
            //end: range.end,
            in_func: Some""", """            src,
            start: range.end,
            //end: range.end,
            in_func: Some""")], B1),
    ('made: no calls', [(SK, 'self.add(e.severity(), e, src, range, Some(trace));', 'self.add(e.severity(), e, src, range, None);')], B1),
    ('made: static', [(CX, 'self.ctx.diagnostics.report(e.into(), self.stack_trace(), self.get_source_file(range), range);', 'self.ctx.diagnostics.report_static(e.into(), self.get_source_file(range), range);')], B1),
    ('made: last file', [(CX, 'self.ctx.diagnostics.report_static(e, self.get_source_file(range), range);', 'let f = self.call_stack.len() as u32;\n        self.ctx.diagnostics.report_static(e, self.get_source_file(SourceRange {start: f, ..range}), SourceRange {start: range.end, ..range});')], B1),
    ('made: let', [(CX, 'self.ctx.diagnostics.report(e.into(), self.stack_trace(), self.get_source_file(range), range);', 'let trace = self.stack_trace();\n        let file = self.get_source_file(range);\n        self.ctx.diagnostics.report(e, trace, file, range);')], OK),
    ('trace: one error without', [(FU, """                return self.coerce(Value::UNIT, type_hint)
                    .map_err(|e| self.report(e, call.range));""", """                return self.coerce(Value::UNIT, type_hint)
                    .map_err(|e| self.report_static(e, call.range));""")], B1),
    ('trace: newest first', [(F, '        self.call_stack.iter()\n            .filter_map', '        self.call_stack.iter()\n            .rev()\n            .filter_map')], B1),
    ('trace: without the first', [(F, '        self.call_stack.iter()\n            .filter_map', '        self.call_stack.iter()\n            .skip(2)\n            .filter_map')], B1),
    ('trace: only named', [(F, '.filter_map(|frame| frame.call.as_ref())', '.filter_map(|frame| frame.call.as_ref().filter(|c| !c.0.name_id().is_anonymous()))')], B1),
    ('trace: file of the last', [(F, 'self.get_source_file(call_range),\n', 'self.get_source_file(self.frame().call.as_ref().map_or(call_range, |c| c.1)),\n')], B1),
    ('trace: loop', [(F, """        self.call_stack.iter()
            .filter_map(|frame| frame.call.as_ref())
            .map(|&(ref func, call_range)| {
                let func_name = format!("@{}", self.get_name(func.name_id()));
                errors::DiagSourceRange::at_func(
                    self.get_source_file(call_range),
                    call_range,
                    &func_name,
                )
            })
            .collect()""", """        let mut trace = Vec::with_capacity(self.call_stack.len());
        for frame in self.call_stack.iter() {
            if let Some((func, call_range)) = &frame.call {
                let func_name = format!("@{}", self.get_name(func.name_id()));
                trace.push(errors::DiagSourceRange::at_func(self.get_source_file(*call_range), *call_range, &func_name));
            }
        }
        trace.into_boxed_slice()""")], OK),
    ('call: place of the body', [(FU, 'let frame = f.closure.new_child_frame(bindings, func.clone(), call_range);', 'let frame = f.closure.new_child_frame(bindings, func.clone(), f.body.range());')], B1),
    ('call: not kept', [(F, '            Some((func, call_range)),\n', '            (!func.name_id().is_anonymous()).then(|| (func, call_range)),\n')], B1),
    ('node: call from its content', [(PF, 'range: func.range().to_end(content.range().end),', 'range: content.range(),')], B1),
    ('node: attribute', [(TG, 'let range = name_tok.range.to_end(value.range().end);', 'let range = value.range();')], B1),
    ('node: attribute access', [(B, 'let range = name.range().to_end(attr_name.range.end);', 'let range = attr_name.range;')], B1),
    ('node: index access', [(B, 'let range = name.range().to_end(index_tok.range.end);', 'let range = tok.range.to_end(index_tok.range.end);')], B1),
    ('node: let in', [(B, '            range: at.range.to_end(child.range().end),', '            range: child.range(),')], B1),
    ('node: group', [(B, '        open.range.to_end(end)\n', '        children.first().map_or(open.range, |c| c.range()).to_end(end)\n')], B1),
    ('node: match', [(M, '            range: at.range.to_end(close.range.end),', '            range: close.range,')], B1),
    ('node: parameter', [(PF, 'let range = spread_range.unwrap_or(name_tok.range)', 'let range = type_annotation_range.unwrap_or(name_tok.range)')], B1),
    ('node: end elsewhere', [(PF, '            range: at.range.to_end(body.range().end),', '            range: at.range.to_end(body.range().start),')], OK),
    ('node: written out', [(PF, '            range: at.range.to_end(body.range().end),', '            range: SourceRange {src_id: at.range.src_id, start: at.range.start, end: body.range().end},')], OK),
    ('of: second', [(A, 'MatchPattern::Or(pair, ..) => pair.0.range().to_end(pair.1.range().end),', 'MatchPattern::Or(pair, ..) => pair.1.range(),')], B1),
    ('report: expected at the last', [(Q, 'Err(self.report(SyntaxError::TokenExpectedWas(kind, tok.kind), tok.range))', 'Err(self.report(SyntaxError::TokenExpectedWas(kind, tok.kind), self.src.eof_range()))')], B1),
    ('report: eof at 0', [(S, 'SourceRange {src_id: self.id, start: end, end}', 'SourceRange {src_id: self.id, start: 0, end}')], B1),
]

seed("s01-simple-key-length", "P01", "a simple key of exactly 1024 characters",
 "the limit on the length of a simple key is off by one, the text is rejected",
 [("scanner.rs", "mark.index + 1024 < self.mark.index", "mark.index + 1024 <= self.mark.index")],
 r'''
    let key = "k".repeat(1024);
    assert_eq!(vals(format!("{key}: v").as_bytes()), [key.as_str(), "v"]);
    assert!(vals(format!("k{key}: v").as_bytes()).last().unwrap().starts_with("ERROR"));
''')
seed("s02-block-scalar-blank-indent", "P01", "a block scalar that begins with a blank line longer than the indentation of its first line of text",
 "leading blank lines no longer count when the indentation of a block scalar is detected",
 [("scanner.rs", "if self.mark.column as i32 > max_indent {", "if !IS_BREAK!(self.buffer) && self.mark.column as i32 > max_indent {")],
 r'''
    let t = toks(b"- |\n     \n  a\n");
    assert!(t.iter().any(|t| t.contains("Scalar { value: \"\", style: Literal }")), "{t:?}");
''')
seed("s03-nel-index", "P14", "a line that ends in NEL, LS or PS outside of scalars",
 "the index of every mark after such a line break is too small",
 [("scanner.rs", """                let width = front.len_utf8();
                self.mark.index += width as u64;
                self.mark.column = 0;""", """                self.mark.index += 1;
                self.mark.column = 0;""")],
 r'''
    let t = toks("# c\u{2028}[a]\u{85}# d\nb".as_bytes());
    assert!(t.iter().any(|t| t.contains("FlowSequenceStart 1:0(6)")), "{t:?}");
''')
seed("s04-indentless-empty-before-value", "P02", "an explicit key that is an unindented sequence ending in an empty item, followed by ':'",
 "the empty item is not recognised and the text is rejected",
 [("parser.rs", "TokenData::BlockEntry | TokenData::Key | TokenData::Value | TokenData::BlockEnd", "TokenData::BlockEntry | TokenData::Key | TokenData::BlockEnd")],
 r'''
    assert_eq!(vals(b"?\n- a\n-\n: v\n"), ["a", "", "v"]);
''')
seed("s05-flow-empty-key-mark", "P02", "an empty explicit key in a flow mapping",
 "the event of the empty key lies after the ':' instead of before it",
 [("parser.rs", """                let mark = token.start_mark;
                self.inner.state = ParserState::FlowMappingValue;""", """                let mark = token.end_mark;
                self.inner.state = ParserState::FlowMappingValue;""")],
 r'''
    let e = evs(b"{? : v}");
    assert!(e[3].ends_with("0:3(3)-0:3(3)"), "{e:?}");
''')
seed("s06-repeated-document-end", "P02", "a document followed by two or more '...' lines",
 "only one further document end marker is skipped, the next one is taken for content",
 [("parser.rs", "while let TokenData::DocumentEnd = &token.data {", "if let TokenData::DocumentEnd = &token.data {")],
 r'''
    assert_eq!(vals(b"a\n...\n...\n...\n--- b\n"), ["a", "b"]);
''')
seed("s07-aliases-leak", "P03", "two documents, the first ended by '...', the second with an alias of an anchor of the first",
 "anchors live on in the next document, where the alias points at a foreign or missing node",
 [("document.rs", """                    Ok(()) => {
                        parser.inner.delete_aliases();
                        return Ok(document);""", """                    Ok(()) => {
                        if document.end_implicit {
                            parser.inner.delete_aliases();
                        }
                        return Ok(document);""")],
 r'''
    let d = docs(b"- &x 1\n...\n---\n- *x\n");
    assert!(d[0].is_ok());
    assert!(d[1].is_err(), "{d:?}");
    let d = docs(b"- &x 1\n...\n---\n- &x 2\n- *x\n");
    assert!(d[1].is_ok(), "{d:?}");
''')
seed("s08-mapping-end-mark", "P03", "loading a mapping in flow style",
 "the end mark of the node is that of the beginning of '}'",
 [("document.rs", """            NodeData::Mapping { .. }
        ));
        self.nodes[index as usize - 1].end_mark = event.end_mark;""", """            NodeData::Mapping { .. }
        ));
        self.nodes[index as usize - 1].end_mark = event.start_mark;""")],
 r'''
    let d = docs(b"{a: b}");
    assert_eq!(m(d[0].as_ref().unwrap().nodes[0].end_mark), "0:6(6)");
''')
seed("s09-simple-key-128", "P04", "a mapping key of exactly 128 bytes",
 "the key is written with '? '",
 [("emitter.rs", "if length > 128 {", "if length >= 128 {")],
 r'''
    let k = "k".repeat(128);
    let o = emits(|_| (), doc(vec![Event::mapping_start(None, None, true, MappingStyle::Block), plain(&k), plain("v"), Event::mapping_end()]));
    assert_eq!(o, format!("{k}: v\n"));
''')
seed("s10-open-ended-directives", "P04", "a document ended implicitly, followed by one with a directive",
 "no '...' is written before the directive, which then belongs to the content of the first document",
 [("emitter.rs", "!tag_directives.is_empty()) && self.open_ended != 0 {", "!tag_directives.is_empty()) && self.open_ended == 2 {")],
 r'''
    let mut p = Parser::new();
    p.set_input(&b"a\n...\n%TAG !e! tag:e,\n--- !e!x b\n"[..]);
    let mut v: Vec<Event> = events(&mut p).into_iter().map(|e| e.unwrap()).collect();
    for e in &mut v {
        if matches!(e.data, EventData::DocumentEnd { .. }) {
            *e = Event::document_end(true);
        }
    }
    let o = emit(|_| (), v).unwrap();
    assert_eq!(vals(&o), ["a", "b"], "{}", String::from_utf8_lossy(&o));
''')
seed("s11-folded-two-spaces", "P05", "a folded scalar with two spaces in a row past the width",
 "the line is broken between them, the rest comes back as a more indented line",
 [("emitter.rs", "                    && is_space(ch)\n                    && !is_space(chars.clone().next())\n", "                    && is_space(ch)\n")],
 r'''
    let v = "aaaaaaaaaaaaaaaa  b c\n";
    assert_eq!(back(|e| e.set_width(10), doc(vec![scalar(v, ScalarStyle::Folded)])), [v]);
''')
seed("s12-chomp-lone-break", "P05", "a block scalar whose value is a single line break",
 "the value comes back empty",
 [("emitter.rs", "} else if is_breakz(next) {\n                chomp_hint = Some(\"+\");", "} else if is_break(next) {\n                chomp_hint = Some(\"+\");")],
 r'''
    assert_eq!(back(|_| (), doc(vec![scalar("\n", ScalarStyle::Literal)])), ["\n"]);
''')
seed("s13-single-quoted-fold", "P05", "a single quoted scalar with two spaces in a row past the width",
 "one of the spaces is lost in folding",
 [("emitter.rs", "                    && !is_last\n                    && !is_space(next)\n", "                    && !is_last\n")],
 r'''
    let v = "aaaaaaaaaaaaaaaa  eeee ffff";
    assert_eq!(back(|e| e.set_width(10), doc(vec![scalar(v, ScalarStyle::SingleQuoted)])), [v]);
''')
seed("s14-dump-end-implicit", "P06", "dumping a document that begins explicitly but ends implicitly, or the other way round",
 "the end of the document is written the way its start was",
 [("document.rs", "Event::document_end(self.end_implicit)", "Event::document_end(self.start_implicit)")],
 r'''
    let mut d = Document::new(None, &[], true, false);
    let _ = d.add_scalar(None, "a", ScalarStyle::Plain);
    let mut out = vec![];
    let mut e = Emitter::new();
    e.set_output(&mut out);
    d.dump(&mut e).unwrap();
    e.close().unwrap();
    drop(e);
    assert_eq!(String::from_utf8(out).unwrap(), "a\n...\n");
''')
seed("s15-anchor-ids-continue", "P06", "two documents with shared nodes dumped to one emitter",
 "what is written for the second document depends on the first",
 [("emitter.rs", "        self.anchors.clear();\n        self.last_anchor_id = 0;\n", "        self.anchors.clear();\n")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let s = d.add_sequence(None, SequenceStyle::Flow);
    let x = d.add_scalar(None, "x", ScalarStyle::Plain);
    d.append_sequence_item(s, x);
    d.append_sequence_item(s, x);
    let mut out = vec![];
    let mut e = Emitter::new();
    e.set_output(&mut out);
    d.clone().dump(&mut e).unwrap();
    d.dump(&mut e).unwrap();
    e.close().unwrap();
    drop(e);
    assert_eq!(String::from_utf8(out).unwrap(), "[&id001 x, *id001]\n--- [&id001 x, *id001]\n");
''')
seed("s16-version-overflow", "P07", "a %YAML directive with a number of ten digits",
 "the number overflows: a panic in debug builds, a wrong number otherwise",
 [("scanner.rs", "if length > MAX_NUMBER_LENGTH {", "if length > MAX_NUMBER_LENGTH + 1 {")],
 r'''
    let t = toks(b"%YAML 1.9999999999\n--- a\n");
    assert!(t.last().unwrap().contains("extremely long version number"), "{t:?}");
''')
seed("s17-unbalanced-close", "P07", "a ']' or '}' that closes nothing",
 "panic",
 [("scanner.rs", """        if self.flow_level != 0 {
            self.flow_level -= 1;
            let _ = self.simple_keys.pop();
        }""", """        self.flow_level = (self.flow_level - 1).max(0);
        let _ = self.simple_keys.pop();""")],
 r'''
    toks(b"a: ]\nb: c\n");
    toks(b"- [a]]\n- b\n");
''')
seed("s18-escaped-crlf-split", "P08", "a backslash followed by CR LF in a double quoted scalar, with the LF in a later read",
 "the line break is counted twice and comes into the value",
 [("scanner.rs", """                        self.cache(3)?;
                        self.skip_char();
                        self.skip_line_break();""", """                        self.skip_char();
                        self.skip_line_break();""")],
 r'''
    let t = b"\"ab\\\r\n  cd\"";
    for n in 1..t.len() {
        assert_eq!(vals_from(Chunks(t, n)), ["abcd"], "{n}");
    }
''')
seed("s19-directive-crlf-split", "P08", "a directive line ended by CR LF, with the LF in a later read",
 "lines are counted twice",
 [("scanner.rs", """        if IS_BREAKZ!(self.buffer) {
            if IS_BREAK!(self.buffer) {
                self.cache(2)?;
                self.skip_line_break();""", """        if IS_BREAKZ!(self.buffer) {
            if IS_BREAK!(self.buffer) {
                self.skip_line_break();""")],
 r'''
    let t = b"%YAML 1.1\r\n--- a\r\n";
    for n in 1..t.len() {
        assert_eq!(toks_from(Chunks(t, n)), toks(t), "{n}");
    }
''')
seed("s20-lone-low-surrogate", "P10", "UTF-16 input with a low surrogate that follows no high one, at the beginning of a read",
 "panic instead of a reader error",
 [("reader.rs", "matches!(value, 0xD800..=0xDFFF)", "matches!(value, 0xD800..=0xDBFF)")],
 r'''
    for be in [false, true] {
        let mut b = utf16("a: ", be, true);
        b.extend(if be { [0xDC, 0x00] } else { [0x00, 0xDC] });
        b.extend(utf16("x", be, false));
        let t = toks(&b);
        assert!(t.last().unwrap().starts_with("ERROR Reader"), "{t:?}");
    }
''')
seed("s21-noncharacters", "P10", "U+FFFE or U+FFFF in the input",
 "forbidden characters are accepted",
 [("reader.rs", "ch <= '\\u{FFFD}'", "ch <= '\\u{FFFF}'")],
 r'''
    for c in ['\u{fffe}', '\u{ffff}'] {
        let t = toks(format!("a: \"{c}\"").as_bytes());
        assert!(t.last().unwrap().starts_with("ERROR Reader"), "{t:?}");
    }
''')
seed("s22-surrogate-offset", "P10", "UTF-16 input with a surrogate pair cut apart by a read, and a forbidden character later",
 "the offset of the error is too small",
 [("reader.rs", "                *offset += 4;", "                *offset += 2;")],
 r'''
    let b = utf16("\u{1f389} \u{1}", false, true);
    let t = toks_from(Chunks(&b, 2));
    assert!(t.last().unwrap().contains("offset 8"), "{t:?}");
''')
seed("s23-split-pair-byte-order", "P08", "UTF-16BE input with a surrogate pair cut apart by a read",
 "the second half is read in the wrong byte order",
 [("reader.rs", """        let second = if BIG_ENDIAN {
            u16::from_be_bytes(buffer)""", """        let second = if BIG_ENDIAN && buffer[0] & 0xFC != 0xDC {
            u16::from_be_bytes(buffer)"""),
  ],
 r'''
    let b = utf16("a\u{1f389}b", true, true);
    for n in 1..b.len() {
        assert_eq!(vals_from(Chunks(&b, n)), ["a\u{1f389}b"], "{n}");
    }
''')
seed("s24-utf16-fault-as-end", "P11", "a reader of UTF-16 input that fails with UnexpectedEof at the beginning of a read",
 "the fault is taken for the end of the input",
 [("reader.rs", """    let available = loop {
        match reader.fill_buf() {
            Ok([]) => return Ok(false),
            Ok(available) => break available,
            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
            Err(err) => return Err(err.into()),
        }
    };

    let chunks""", """    let available = loop {
        match reader.fill_buf() {
            Ok([]) => return Ok(false),
            Ok(available) => break available,
            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
            Err(err) if err.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(false),
            Err(err) => return Err(err.into()),
        }
    };

    let chunks""")],
 r'''
    let b = utf16("a: b", false, true);
    let t = toks_from(Fails(&b, std::io::ErrorKind::UnexpectedEof));
    assert!(t.last().unwrap().contains("the fault"), "{t:?}");
''')
seed("s25-error-payload", "P11", "a reader that fails with an error that carries a message of its own",
 "only the kind of the error is kept",
 [("error.rs", "Self(Box::new(ErrorImpl::Io(value)))", "Self(Box::new(ErrorImpl::Io(value.kind().into())))")],
 r'''
    let t = toks_from(Fails(b"a: b", std::io::ErrorKind::Other));
    assert!(t.last().unwrap().contains("the fault"), "{t:?}");
''')
seed("s26-short-utf16-write", "P12", "UTF-16 output to a writer that writes less than it was given",
 "the rest is lost",
 [("emitter.rs", """        self.write_handler
            .as_mut()
            .expect("non-null function pointer")
            .write_all(to_emit)?;""", """        let _written = self
            .write_handler
            .as_mut()
            .expect("non-null function pointer")
            .write(to_emit)?;""")],
 r'''
    struct Short(Vec<u8>);
    impl Write for Short {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let n = b.len().min(3);
            self.0.extend(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut w = Short(vec![]);
    let mut e = Emitter::new();
    e.set_encoding(Encoding::Utf16Le);
    e.set_output(&mut w);
    for ev in doc(vec![plain("hello")]) {
        e.emit(ev).unwrap();
    }
    drop(e);
    assert_eq!(w.0, utf16("hello\n", false, true));
''')
seed("s27-failed-write-dropped", "P12", "a write that fails, and a flush after it",
 "the text whose write failed is dropped and the later flush reports success",
 [("emitter.rs", """            self.write_handler
                .as_mut()
                .expect("non-null writer")
                .write_all(to_emit)?;
            self.buffer.clear();
            return Ok(());""", """            let result = self
                .write_handler
                .as_mut()
                .expect("non-null writer")
                .write_all(to_emit);
            self.buffer.clear();
            return Ok(result?);""")],
 r'''
    struct Once(Vec<u8>, bool);
    impl Write for Once {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if !self.1 {
                self.1 = true;
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "once"));
            }
            self.0.extend(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut w = Once(vec![], false);
    let mut e = Emitter::new();
    e.set_output(&mut w);
    e.emit(Event::stream_start(Encoding::Utf8)).unwrap();
    e.emit(Event::document_start(None, &[], true)).unwrap();
    e.emit(plain("hello")).unwrap();
    assert!(e.flush().is_err());
    let again = e.flush();
    drop(e);
    assert!(again.is_err() || w.0 == b"hello", "{:?}", w.0);
''')
seed("s28-flush-explicit-end-only", "P13", "a document that ends implicitly, and a look at the output before the stream is closed",
 "the text of the document has not reached the writer",
 [("emitter.rs", """                self.open_ended = 1;
            }
            self.flush()?;""", """                self.open_ended = 1;
            }
            if !implicit || self.encoding != Encoding::Utf8 {
                self.flush()?;
            }""")],
 r'''
    use std::{cell::RefCell, rc::Rc};
    struct Shared(Rc<RefCell<Vec<u8>>>);
    impl Write for Shared {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0.borrow_mut().extend(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let o = Rc::new(RefCell::new(vec![]));
    let mut w = Shared(o.clone());
    let mut e = Emitter::new();
    e.set_output(&mut w);
    for ev in doc(vec![plain("hello")]).into_iter().take(4) {
        e.emit(ev).unwrap();
    }
    assert_eq!(*o.borrow(), b"hello\n");
''')
seed("s29-utf16-text-twice", "P13", "UTF-16 output flushed more than once",
 "what was written before is written again",
 [("emitter.rs", "        self.buffer.clear();\n        self.raw_buffer.clear();\n        Ok(())", "        self.buffer.clear();\n        Ok(())")],
 r'''
    let o = emit(|e| e.set_encoding(Encoding::Utf16Be), doc(vec![plain("a")]).into_iter().take(4).chain(doc(vec![plain("b")]).into_iter().skip(1)).collect()).unwrap();
    assert_eq!(o, utf16("a\n--- b\n", true, true));
''')
seed("s31-stale-collection-mark", "P15", "a syntax error in a collection after a nested block sequence was closed",
 "the error gives the position of the wrong collection as its context",
 [("parser.rs", """                data: EventData::SequenceEnd,
                start_mark: token.start_mark,
                end_mark: token.end_mark,
            };
            self.inner.state = self.inner.states.pop().unwrap();
            let _ = self.inner.marks.pop();
            self.scanner.skip_token();""", """                data: EventData::SequenceEnd,
                start_mark: token.start_mark,
                end_mark: token.end_mark,
            };
            self.inner.state = self.inner.states.pop().unwrap();
            self.scanner.skip_token();""")],
 r'''
    let e = evs(b"k:\n  - a\n- b\n");
    assert!(e.last().unwrap().ends_with("(line 1 column 1)"), "{e:?}");
''')
seed("s32-tab-error-context", "P15", "a tab that violates indentation in a plain scalar over several lines",
 "the error's context mark is the end of the scalar so far instead of its start",
 [("scanner.rs", """                            "while scanning a plain scalar",
                            start_mark,
                            "found a tab character that violates indentation",""", """                            "while scanning a plain scalar",
                            end_mark,
                            "found a tab character that violates indentation",""")],
 r'''
    let e = evs(b"k: abc def\n\tghi\n");
    assert!(e.last().unwrap().ends_with("(line 1 column 4)"), "{e:?}");
''')
seed("s33-reset-tag-directives", "P16", "a parser abandoned in the middle of a document with %TAG, then reset",
 "the directives of the first stream hold in the second",
 [("parser.rs", "        self.inner.marks.clear();\n        self.inner.tag_directives.clear();\n", "        self.inner.marks.clear();\n")],
 r'''
    let mut p = Parser::new();
    p.set_input(&b"%TAG !e! tag:e,\n--- [a, b]\n"[..]);
    for _ in 0..3 {
        p.parse().unwrap();
    }
    p.reset();
    p.set_input(&b"!e!x a\n"[..]);
    let v = show(&events(&mut p));
    assert!(v.last().unwrap().starts_with("ERROR"), "{v:?}");
''')
seed("s34-reset-simple-keys", "P16", "a scanner abandoned right behind a possible key, reset, and given a text of several lines",
 "the key of the first stream is still waited for in the second, which is rejected",
 [("scanner.rs", "        self.simple_key_allowed = false;\n        self.simple_keys.clear();\n    }\n}", "        self.simple_key_allowed = false;\n    }\n}")],
 r'''
    let mut p = Scanner::new();
    p.set_input(&b"a: 1\nb\nc: 2\n"[..]);
    while Scanner::scan(&mut p).is_ok_and(|t| !matches!(t.data, TokenData::StreamEnd)) {}
    p.reset();
    p.set_input(&b"x: 1\ny: 2\n"[..]);
    let mut v = vec![];
    for t in p {
        v.push(t.map(|t| format!("{:?}", t.data)).unwrap_or_else(|e| format!("ERROR {e}")));
    }
    assert_eq!(v.last().unwrap(), "StreamEnd", "{v:?}");
''')
seed("s35-iterate-after-error", "P17", "iterating over a parser past a syntax error",
 "the iterator goes on after the error and never ends",
 [("parser.rs", """        if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
            None""", """        if self.scanner.stream_end_produced {
            None""")],
 r'''
    let mut p = Parser::new();
    p.set_input(&b"[a, b}"[..]);
    let n = p.take(100).skip_while(|r| r.is_ok()).count();
    assert_eq!(n, 1);
''')
seed("s36-pair-dedup", "P18", "appending a pair of the same key and value twice to a mapping",
 "the second pair is left out",
 [("document.rs", "            pairs.push(pair);\n", "            if !pairs.iter().any(|p| p.key == pair.key && p.value == pair.value) {\n                pairs.push(pair);\n            }\n")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let k = d.add_mapping(None, MappingStyle::Flow);
    let a = d.add_scalar(None, "a", ScalarStyle::Plain);
    for _ in 0..2 {
        d.yaml_document_append_mapping_pair(k, a, a);
    }
    match &d.get_node(k).unwrap().data {
        NodeData::Mapping { pairs, .. } => assert_eq!(pairs.len(), 2),
        _ => panic!(),
    }
''')
seed("s37-empty-tag-default", "P18", "adding a sequence with an empty tag",
 "a tag that was given is replaced by the default",
 [("document.rs", "let tag = tag.unwrap_or(DEFAULT_SEQUENCE_TAG);", "let tag = tag.filter(|tag| !tag.is_empty()).unwrap_or(DEFAULT_SEQUENCE_TAG);")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let k = d.add_sequence(Some(""), SequenceStyle::Flow);
    assert_eq!(d.get_node(k).unwrap().tag.as_deref(), Some(""));
''')
seed("s38-short-bad-handle", "P19", "a %TAG directive whose handle is one bad character between '!'",
 "the directive is accepted and the output cannot be read",
 [("emitter.rs", "if tag_directive.handle.len() > 2 {", "if tag_directive.handle.len() > 3 {")],
 r'''
    let mut p = Parser::new();
    p.set_input(&b"%TAG !e! tag:e,\n--- a\n"[..]);
    let mut v: Vec<Event> = events(&mut p).into_iter().map(|e| e.unwrap()).collect();
    if let EventData::DocumentStart { tag_directives, .. } = &mut v[1].data {
        tag_directives[0].handle = "!%!".into();
    }
    assert!(emit(|_| (), v).is_err());
''')
seed("s39-no-implicit-flags", "P19", "an untagged quoted scalar with neither implicit flag set",
 "the event is accepted",
 [("emitter.rs", "if no_tag && !*plain_implicit && !*quoted_implicit {", "if no_tag && !*plain_implicit && !*quoted_implicit && style == ScalarStyle::Plain {")],
 r'''
    let o = emit(|_| (), doc(vec![Event::scalar(None, None, "a", false, false, ScalarStyle::DoubleQuoted)]));
    assert!(o.is_err(), "{o:?}");
''')
seed("s40-plain-trailing-space", "P20", "a plain scalar over several lines with white space before a line break",
 "the white space comes back at the next gap between words",
 [("scanner.rs", """                    if leading_blanks {
                        self.read_line_break(&mut trailing_breaks);
                    } else {
                        whitespaces.clear();
                        self.read_line_break(&mut leading_break);
                        leading_blanks = true;
                    }
                }
                self.cache(1)?;
            }
            if self.flow_level == 0 &&""", """                    if leading_blanks {
                        self.read_line_break(&mut trailing_breaks);
                    } else {
                        self.read_line_break(&mut leading_break);
                        leading_blanks = true;
                    }
                }
                self.cache(1)?;
            }
            if self.flow_level == 0 &&""")],
 r'''
    assert_eq!(vals(b"k: a  \n  b c\n"), ["k", "a b c"]);
''')
seed("s41-folded-tab-line", "P20", "a folded block scalar with a more indented line that begins with a tab",
 "the line is folded into the one before it",
 [("scanner.rs", "trailing_blank = IS_BLANK!(self.buffer) as i32;", "trailing_blank = IS_SPACE!(self.buffer) as i32;")],
 r'''
    assert_eq!(vals(b">\n a\n \tb\n c\n"), ["a\n\tb\nc\n"]);
''')
seed("s42-indent-ten", "P21", "an indent of 10, two places that have to agree",
 "the setting is not replaced by the default; panic for a block scalar that begins with a space",
 [("emitter.rs", "if 1 < indent && indent < 10 { indent } else { 2 }", "if 1 < indent && indent <= 10 { indent } else { 2 }"),
  ("emitter.rs", "if self.best_indent < 2 || self.best_indent > 9 {", "if self.best_indent < 2 || self.best_indent > 10 {")],
 r'''
    let evs = || doc(vec![Event::sequence_start(None, None, true, SequenceStyle::Block), Event::sequence_start(None, None, true, SequenceStyle::Block), plain("a"), plain("b"), Event::sequence_end(), Event::sequence_end()]);
    assert_eq!(emits(|e| e.set_indent(10), evs()), emits(|_| (), evs()));
''')
seed("s43-canonical-simple-keys", "P21", "canonical output of a flow mapping with short keys",
 "keys are written as simple keys",
 [("emitter.rs", "if !self.canonical && self.check_simple_key(event, analysis) {", "if self.check_simple_key(event, analysis) {")],
 r'''
    let o = emits(|e| e.set_canonical(true), doc(vec![Event::mapping_start(None, None, true, MappingStyle::Block), plain("k"), plain("v"), Event::mapping_end()]));
    assert!(o.contains("? "), "{o}");
''')
seed("s44-tag-directives-leak", "P22", "a document with %TAG that ends in '...', and another one using the handle",
 "the directive holds in the next document",
 [("parser.rs", "            implicit = false;\n        }\n        self.inner.tag_directives.clear();", "            implicit = false;\n        } else {\n            self.inner.tag_directives.clear();\n        }")],
 r'''
    let t = tags(b"%TAG !e! tag:e,\n--- !e!x a\n...\n--- !e!x b\n");
    assert_eq!(t[0], "tag:e,x");
    assert!(t[1].starts_with("ERROR"), "{t:?}");
''')
seed("s45-bom-later-document", "P22", "a byte order mark in front of a document that is not the first",
 "the mark becomes part of the content",
 [("scanner.rs", "if self.mark.column == 0 && IS_BOM!(self.buffer) {", "if self.mark.index == 0 && IS_BOM!(self.buffer) {")],
 r'''
    assert_eq!(vals("a\n...\n\u{feff}# c\n--- b\n".as_bytes()), ["a", "b"]);
''')
seed("s46-version-1-0", "P23", "a %YAML 1.0 directive",
 "an unsupported version is accepted",
 [("parser.rs", "*major != 1 || *minor != 1 && *minor != 2 {", "*major != 1 || *minor > 2 {")],
 r'''
    let t = tags(b"%YAML 1.0\n--- a\n");
    assert!(t[0].starts_with("ERROR"), "{t:?}");
''')
seed("s47-one-letter-tag", "P23", "a local tag of one letter",
 "the letter is lost",
 [("scanner.rs", "        if length > 1 {\n            string = String::from(&head[1..]);", "        if length > 2 {\n            string = String::from(&head[1..]);")],
 r'''
    assert_eq!(tags(b"- !a x\n- !ab y\n- ! z\n"), ["!a", "!ab", "!"]);
''')
seed("s48-c1-controls", "P10", "a C1 control character in the input",
 "forbidden characters are accepted",
 [("reader.rs", "ch >= '\\u{00A0}' && ch <= '\\u{D7FF}'", "ch >= '\\u{0090}' && ch <= '\\u{D7FF}'")],
 r'''
    let t = toks("a: \u{9f}".as_bytes());
    assert!(t.last().unwrap().starts_with("ERROR Reader"), "{t:?}");
''')
seed("s49-partial-character-dropped", "P08", "a character of several bytes cut apart by a read, with other characters before it in the same read",
 "its first bytes are thrown away",
 [("reader.rs", "reader.consume(valid_bytes);\n                        Ok(true)", "let used = available.len();\n                        reader.consume(if used - valid_bytes > 2 { used } else { valid_bytes });\n                        Ok(true)")],
 r'''
    let b = "ab\u{1f389}c\u{1f389}".as_bytes();
    for n in 1..b.len() {
        assert_eq!(vals_from(Chunks(b, n)), ["ab\u{1f389}c\u{1f389}"], "{n}");
    }
''')
seed("s50-utf16-two-byte-read", "P08", "a read of UTF-16 input that holds exactly one character",
 "the input ends there",
 [("reader.rs", "    if used != 0 {\n        reader.consume(used);\n        Ok(true)\n    } else {", "    if used != 0 {\n        reader.consume(used);\n        Ok(used > 2 || available_is_long)\n    } else {"),
  ("reader.rs", "    let chunks = available.chunks_exact(2).map(|chunk| {", "    let available_is_long = available.len() > 2;\n    let chunks = available.chunks_exact(2).map(|chunk| {")],
 r'''
    for be in [false, true] {
        let b = utf16("a", be, true);
        assert_eq!(toks(&b)[1..], toks(b"a")[1..]);
        let b = utf16("[ab, c]", be, true);
        assert_eq!(toks_from(Chunks(&b, 2))[1..], toks(b"[ab, c]")[1..]);
    }
''')
# ---- second round
seed("s51-width-zero", "P21", "the width set to 0 and a scalar longer than a line",
 "0 turns folding off instead of meaning the default",
 [("emitter.rs", "self.best_width = if width >= 0 { width } else { -1 };", "self.best_width = if width > 0 { width } else { -1 };")],
 r'''
    let o = emits(|e| e.set_width(0), doc(vec![scalar(&"word ".repeat(40).trim(), ScalarStyle::DoubleQuoted)]));
    assert!(o.lines().all(|l| l.len() < 100), "{o}");
''')
seed("s52-double-quoted-two-spaces", "P05", "two spaces in a double-quoted scalar where the line is folded",
 "the second space is not protected and lost",
 [("emitter.rs", "                    self.write_indent()?;\n                    if is_space(chars.clone().next()) {", "                    self.write_indent()?;\n                    if is_space(chars.clone().next()) && self.flow_level != 0 {")],
 r'''
    let v = "aaaaaaaaaaaaaaa  tail".to_string();
    let b = back(|e| e.set_width(10), doc(vec![scalar(&v, ScalarStyle::DoubleQuoted)]));
    assert!(b.iter().any(|l| l.contains(&v)), "{b:?}");
''')
seed("s53-duplicate-handle-other-prefix", "P19", "a document start event with the same handle twice and different prefixes",
 "the event is accepted and the output cannot be read",
 [("emitter.rs", "if value.handle == tag_directive.handle {\n                if allow_duplicates {\n                    return Ok(());\n                }\n                return Err(Error::emitter(", "if value.handle == tag_directive.handle\n                && (allow_duplicates || value.prefix == tag_directive.prefix)\n            {\n                if allow_duplicates {\n                    return Ok(());\n                }\n                return Err(Error::emitter(")],
 r'''
    let dirs = |p: &[&str]| {
        let t: String = p.iter().map(|p| format!("%TAG !e! {p}\n")).collect::<String>() + "---\na";
        let mut r = t.as_bytes();
        let mut ps = Parser::new();
        ps.set_input(&mut r);
        ps.parse().unwrap();
        match ps.parse().unwrap().data { EventData::DocumentStart { tag_directives, .. } => tag_directives, _ => unreachable!() }
    };
    let mut d = dirs(&["tag:a,1:"]);
    d.extend(dirs(&["tag:b,1:"]));
    let e = emit(|_| (), vec![Event::stream_start(Encoding::Utf8), Event::document_start(None, &d, false), plain("a"), Event::document_end(true), Event::stream_end()]);
    assert!(e.is_err(), "{e:?}");
''')
seed("s54-question-mark-in-flow", "P04", "a plain scalar with '?' after its first character in a flow collection",
 "it is written plain where libyaml quotes it",
 [("emitter.rs", "',' | '?' | '[' | ']' | '{' | '}' => {\n                        flow_indicators = true;", "',' | '[' | ']' | '{' | '}' => {\n                        flow_indicators = true;")],
 r'''
    let o = emits(|_| (), doc(vec![Event::sequence_start(None, None, true, SequenceStyle::Flow), plain("a?b"), Event::sequence_end()]));
    assert_eq!(o.trim(), "['a?b']");
''')
seed("s55-empty-simple-key", "P04", "an empty plain scalar as the key of a block mapping",
 "it is written as nothing where libyaml quotes it",
 [("emitter.rs", "if scalar_analysis.value.is_empty() && (self.flow_level != 0 || self.simple_key_context)", "if scalar_analysis.value.is_empty() && self.flow_level != 0")],
 r'''
    let o = emits(|_| (), doc(vec![Event::mapping_start(None, None, true, MappingStyle::Block), plain(""), plain("v"), Event::mapping_end()]));
    assert_eq!(o.trim(), "'': v");
''')
seed("s56-reset-keeps-queue", "P16", "an emitter that is reset while a start event waits for those after it",
 "the waiting event comes first in the new stream",
 [("emitter.rs", "        *self = Self::new();", "        // Keep the allocation of the queue.\n        let events = core::mem::take(&mut self.events);\n        *self = Self::new();\n        self.events = events;")],
 r'''
    let mut em = Emitter::new();
    let mut a = vec![];
    em.set_output(&mut a);
    em.emit(Event::stream_start(Encoding::Utf8)).unwrap();
    em.emit(Event::document_start(None, &[], true)).unwrap();
    em.reset();
    let mut b = vec![];
    em.set_output(&mut b);
    for e in doc(vec![plain("a")]) {
        em.emit(e).unwrap();
    }
    em.flush().unwrap();
    drop(em);
    assert_eq!(String::from_utf8(b).unwrap(), emits(|_| (), doc(vec![plain("a")])));
''')
seed("s57-first-character-ef", "P10", "input whose first character is neither ASCII nor a byte order mark, but begins with the byte EF",
 "the character is taken for a byte order mark and dropped",
 [("reader.rs", "            if out.front() == Some(&BOM) {\n                out.pop_front();\n            }", "            // The byte order mark is not part of the content.\n            out.pop_front();")],
 r'''
    assert_eq!(vals("\u{ff01}a".as_bytes()), ["\u{ff01}a"]);
    assert_eq!(vals("\u{feff}a".as_bytes()), ["a"]);
''')
seed("s58-tag-anchor-empty-end", "P02", "an empty node with a tag followed by an anchor",
 "the event ends after the tag",
 [("parser.rs", "                anchor = Some(core::mem::take(value));\n                end_mark = token.end_mark;\n                self.scanner.skip_token();\n            }\n        }\n", "                anchor = Some(core::mem::take(value));\n                self.scanner.skip_token();\n            }\n        }\n")],
 r'''
    let e = evs(b"- !!str &a\n- b\n");
    let l = e.iter().find(|l| l.contains("\"a\"")).unwrap();
    assert!(l.contains("0:10"), "{l}");
''')
seed("s59-non-specific-mapping-tag", "P03", "a mapping with the tag '!'",
 "the node's tag stays '!' instead of the default",
 [("document.rs", "        if tag.is_none() || tag.as_deref() == Some(\"!\") {\n            tag = Some(String::from(DEFAULT_MAPPING_TAG));", "        if tag.is_none() {\n            tag = Some(String::from(DEFAULT_MAPPING_TAG));")],
 r'''
    let d = docs(b"! {a: b}").remove(0).unwrap();
    assert_eq!(d.nodes[0].tag.as_deref(), Some("tag:yaml.org,2002:map"));
''')
seed("s60-dump-quoted-implicit", "P06", "a plain string that has to be quoted in a dumped document",
 "the emitter gets other flags and writes a '!' before the quotes",
 [("document.rs", "let quoted_implicit = node.tag.as_deref() == Some(DEFAULT_SCALAR_TAG); // TODO: Why compare twice?! (even the C code does this)", "let quoted_implicit = plain_implicit && !matches!(&node.data, NodeData::Scalar { style: ScalarStyle::Plain, .. });")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let _ = d.add_scalar(None, " a", ScalarStyle::Plain);
    let mut out = vec![];
    let mut em = Emitter::new();
    em.set_output(&mut out);
    d.dump(&mut em).unwrap();
    em.close().unwrap();
    drop(em);
    let out = String::from_utf8(out).unwrap();
    assert!(!out.contains('!'), "{out}");
''')
seed("s61-backslash-at-end", "P07", "input that ends in a backslash inside a double-quoted scalar",
 "panic",
 [("scanner.rs", "match self.buffer.get(1).copied().unwrap_or('\\0') {", "match self.buffer[1] {")],
 r'''
    let t = toks(b"\"a\\");
    assert!(t.last().unwrap().starts_with("ERROR"), "{t:?}");
''')
seed("s62-marker-lookahead", "P08", "a read that ends after three dashes which begin a word",
 "the dashes are taken for a document marker",
 [("scanner.rs", "        self.unroll_indent(self.mark.column as i64);\n        self.cache(4)?;", "        self.unroll_indent(self.mark.column as i64);\n        self.cache(3)?;")],
 r'''
    let b = b"---a";
    for n in 1..6 {
        assert_eq!(vals_from(Chunks(b, n)), ["---a"], "{n}");
    }
''')
seed("s63-unexpected-eof-fault", "P11", "a reader that fails with the kind UnexpectedEof",
 "the fault is taken for the end of the input",
 [("reader.rs", "            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),\n            Err(err) => return Err(err.into()),\n        }\n    };\n\n    match core::str::from_utf8(available) {", "            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),\n            Err(err) if err.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(false),\n            Err(err) => return Err(err.into()),\n        }\n    };\n\n    match core::str::from_utf8(available) {")],
 r'''
    struct E<'a>(&'a [u8]);
    impl std::io::Read for E<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = { let a = self.fill_buf()?; let n = a.len().min(b.len()); b[..n].copy_from_slice(&a[..n]); n };
            self.consume(n);
            Ok(n)
        }
    }
    impl BufRead for E<'_> {
        fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
            if self.0.is_empty() { Err(std::io::ErrorKind::UnexpectedEof.into()) } else { Ok(self.0) }
        }
        fn consume(&mut self, n: usize) { self.0 = &self.0[n..]; }
    }
    let t = toks_from(E(b"- a\n"));
    assert!(t.last().unwrap().starts_with("ERROR"), "{t:?}");
''')
seed("s64-fault-reported-late", "P12", "a write that fails while a long scalar fills the buffer",
 "the event reports success; only a later one fails",
 [("emitter.rs", "    fn write_char(&mut self, ch: char) -> Result<()> {\n        self.flush_if_needed()?;", "    fn write_char(&mut self, ch: char) -> Result<()> {\n        // A failure shows again when the document is flushed.\n        let _ = self.flush_if_needed();")],
 r'''
    struct Never;
    impl std::io::Write for Never {
        fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let mut w = Never;
    let mut em = Emitter::new();
    em.set_output(&mut w);
    let mut evs = doc(vec![scalar(&"x".repeat(100_000), ScalarStyle::Plain)]).into_iter();
    em.emit(evs.next().unwrap()).unwrap();
    em.emit(evs.next().unwrap()).unwrap();
    assert!(em.emit(evs.next().unwrap()).is_err());
''')
seed("s65-stream-end-unflushed", "P13", "a last document that ends in a scalar with trailing breaks kept",
 "the closing '...' does not reach the writer",
 [("emitter.rs", "                self.open_ended = 0;\n                self.write_indent()?;\n            }\n            self.flush()?;\n            self.state = EmitterState::End;", "                self.open_ended = 0;\n                self.write_indent()?;\n            }\n            self.state = EmitterState::End;")],
 r'''
    let mut out = vec![];
    let mut em = Emitter::new();
    em.set_output(&mut out);
    for e in doc(vec![scalar("a\n\n", ScalarStyle::Literal)]) {
        em.emit(e).unwrap();
    }
    drop(em);
    let out = String::from_utf8(out).unwrap();
    assert!(out.ends_with("...\n"), "{out:?}");
''')
seed("s66-flow-entry-indent", "P14", "a flow collection closed more often than opened inside a block collection",
 "the stream of tokens and marks goes out of order",
 [("scanner.rs", "        let start_mark: Mark = self.mark;\n        self.skip_char();\n        let end_mark: Mark = self.mark;\n        let token = Token {\n            data: TokenData::Value,\n            start_mark,", "        let start_mark: Mark = match self.tokens.back() {\n            Some(t) if self.flow_level != 0 => t.end_mark,\n            _ => self.mark,\n        };\n        self.skip_char();\n        let end_mark: Mark = self.mark;\n        let token = Token {\n            data: TokenData::Value,\n            start_mark,")],
 r'''
    let t = toks(b"{a : b}");
    let v = t.iter().find(|l| l.contains("Value")).unwrap();
    assert!(v.contains("0:3"), "{v}");
''')
seed("s67-context-mark-of-composer", "P15", "an alias to an anchor that does not exist",
 "the error claims a context that it does not have",
 [("document.rs", "        Err(Error::composer(\n            \"\",\n            Mark::default(),\n            \"found undefined alias\",", "        Err(Error::composer(\n            \"while composing a node\",\n            self.start_mark,\n            \"found undefined alias\",")],
 r'''
    let e = docs(b"- *a").remove(0).unwrap_err();
    assert_eq!(e.context(), None);
    assert_eq!(e.context_mark(), None);
''')
seed("s68-reset-offset", "P16", "a parser that is reset after use, then given input that is not valid",
 "the offset of the error counts from the first input",
 [("scanner.rs", "        self.encoding = Encoding::Any;\n        self.offset = 0;\n        self.mark = Mark::default();\n        self.stream_start_produced = false;\n        self.stream_end_produced = false;\n        self.flow_level = 0;\n        self.tokens.clear();", "        self.encoding = Encoding::Any;\n        self.mark = Mark::default();\n        self.stream_start_produced = false;\n        self.stream_end_produced = false;\n        self.flow_level = 0;\n        self.tokens.clear();")],
 r'''
    let mut a: &[u8] = b"abc";
    let mut b: &[u8] = b"x\xff";
    let mut p = Parser::new();
    p.set_input(&mut a);
    while !matches!(p.parse().unwrap().data, EventData::StreamEnd) {}
    p.reset();
    p.set_input(&mut b);
    let e = loop { if let Err(e) = p.parse() { break e } };
    assert!(e.to_string().contains("offset 1"), "{e}");
''')
seed("s69-iterator-swallows-last", "P17", "iterating over a parser whose stream has been scanned to its end",
 "the iteration ends one event early",
 [("parser.rs", "            None\n        } else {\n            Some(self.parse())\n        }", "            None\n        } else {\n            match self.parse() {\n                Ok(Event { data: EventData::StreamEnd, start_mark, .. }) if start_mark.index == 0 => None,\n                event => Some(event),\n            }\n        }")],
 r'''
    let mut r: &[u8] = b"";
    let mut p = Parser::new();
    p.set_input(&mut r);
    assert_eq!(p.count(), 2);
''')
seed("s70-negative-ids", "P18", "looking up a node by a negative id",
 "the node of the positive id is returned",
 [("document.rs", "        self.nodes.get((index as usize).checked_sub(1)?)", "        self.nodes.get((index.unsigned_abs() as usize).checked_sub(1)?)")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let _ = d.add_scalar(None, "a", ScalarStyle::Plain);
    assert!(d.get_node(-1).is_none());
    assert!(d.get_node(1).is_some());
''')
seed("s71-alias-characters", "P19", "an alias event with characters that no alias can have",
 "the alias is written and reads as something else",
 [("emitter.rs", "        for ch in anchor.chars() {\n            if !is_alpha(ch) {", "        for ch in anchor.chars() {\n            if !is_alpha(ch) && (!alias || is_blank(ch)) {")],
 r'''
    assert!(emit(|_| (), doc(vec![Event::alias("a.b")])).is_err());
    assert!(emit(|_| (), doc(vec![Event::alias("a-b_1")])).is_ok());
''')
seed("s72-root-indent-indicator", "P20", "a block scalar with an indentation indicator as the root of a document",
 "the indentation is taken one too small and spaces come into the value",
 [("scanner.rs", "            indent = if self.indent >= 0 {\n                self.indent + increment\n            } else {\n                increment\n            };", "            indent = core::cmp::max(self.indent + increment, 1);")],
 r'''
    assert_eq!(vals(b"--- |2\n  a\n   b\n"), ["a\n b\n"]);
    assert_eq!(vals(b"- |2\n   a\n"), [" a\n"]);
''')
seed("s73-flow-plain-continuation", "P01", "a plain scalar in a flow collection that goes on on a line indented less than the block around it",
 "the scalar ends there",
 [("scanner.rs", "            if self.flow_level == 0 && (self.mark.column as i32) < indent {\n                break;\n            }\n        }\n\n        if leading_blanks {", "            if (self.mark.column as i32) < indent {\n                break;\n            }\n        }\n\n        if leading_blanks {")],
 r'''
    assert_eq!(vals(b"a:\n  b: [c\n d]\n"), ["a", "b", "c d"]);
''')
seed("s74-handle-with-dash", "P23", "a tag handle that contains '-'",
 "the handle is not recognised in a tag",
 [("scanner.rs", "        loop {\n            if !IS_ALPHA!(self.buffer) {\n                break;\n            }\n            self.read_char(&mut string);\n            self.cache(1)?;\n        }\n        if CHECK!(self.buffer, '!') {", "        loop {\n            if !IS_ALPHA!(self.buffer) || !directive && CHECK!(self.buffer, '-') {\n                break;\n            }\n            self.read_char(&mut string);\n            self.cache(1)?;\n        }\n        if CHECK!(self.buffer, '!') {")],
 r'''
    assert_eq!(tags(b"%TAG !a-b! tag:x,\n--- !a-b!c d\n"), ["tag:x,c"]);
''')
seed("s75-odd-last-byte", "P10", "UTF-16 input of an odd number of bytes",
 "the last byte is ignored",
 [("reader.rs", "    if read_full(reader, &mut buffer)? != 2 {\n        return Err(Error::reader(\"incomplete UTF-16 character\", *offset, -1));\n    }", "    if read_full(reader, &mut buffer)? != 2 {\n        return Ok(());\n    }")],
 r'''
    let mut b = utf16("a", false, true);
    b.push(0x20);
    let t = toks(&b);
    assert!(t.last().unwrap().starts_with("ERROR Reader"), "{t:?}");
''')
seed("s76-colon-question", "P01", "':?' inside a plain scalar in a flow collection",
 "it is accepted where libyaml reports an error",
 [("scanner.rs", "                        || CHECK_AT!(self.buffer, '?', 1)\n", "")],
 r'''
    let t = toks(b"[a:?b]");
    assert!(t.last().unwrap().starts_with("ERROR"), "{t:?}");
''')
seed("s77-folded-line-separator", "P01", "a folded block scalar with a line ended by U+2028",
 "the separator is folded into a space",
 [("scanner.rs", "            if !literal\n                && leading_break.starts_with('\\n')", "            if !literal\n                && !leading_break.is_empty()")],
 r'''
    assert_eq!(vals(">\n a\u{2028} b\n c\n".as_bytes()), ["a\u{2028}b c\n"]);
''')
seed("s78-alias-key-in-flow", "P04", "an alias as a key of a flow mapping",
 "the ':' is written directly after the alias",
 [("emitter.rs", "        if self.simple_key_context {\n            self.put(' ')?;\n        }", "        if self.simple_key_context && self.flow_level == 0 {\n            self.put(' ')?;\n        }")],
 r'''
    let o = emits(|_| (), doc(vec![Event::sequence_start(None, None, true, SequenceStyle::Flow), Event::scalar(Some("a"), None, "x", true, true, ScalarStyle::Plain),
        Event::mapping_start(None, None, true, MappingStyle::Flow), Event::alias("a"), plain("v"), Event::mapping_end(), Event::sequence_end()]));
    assert!(o.contains("*a :"), "{o}");
''')
seed("s79-hint-for-leading-break", "P05", "a literal scalar that begins with a line break followed by an indented line",
 "no indentation hint is written and the indentation is lost",
 [("emitter.rs", "        if is_space(first) || is_break(first) {\n            let indent_hint", "        if is_space(first) {\n            let indent_hint")],
 r'''
    let b = back(|_| (), doc(vec![scalar("\n  a\nb\n", ScalarStyle::Literal)]));
    assert!(b == ["\n  a\nb\n"], "{b:?}");
''')
seed("s80-escape-width-ff", "P04", "the character U+00FF in a double-quoted scalar",
 "it is escaped with four digits instead of two",
 [("emitter.rs", "let (prefix, width) = if ch <= '\\u{00ff}' {", "let (prefix, width) = if ch < '\\u{00ff}' {")],
 r'''
    let o = emits(|_| (), doc(vec![plain("\u{ff}")]));
    assert_eq!(o.trim(), "\"\\xFF\"");
''')
seed("s81-status-of-last-file", "P24", "two files, the first not valid YAML and the second valid",
 "the program goes on and reports the status of the last file only",
 [("bin/run-parser-test-suite.rs", "    for arg in args {\n        let mut stdin = File::open(arg).unwrap();", "    let mut status = ExitCode::SUCCESS;\n    for arg in args {\n        status = ExitCode::SUCCESS;\n        let mut stdin = File::open(arg).unwrap();"),
  ("bin/run-parser-test-suite.rs", "            let _ = writeln!(io::stderr(), \"{err}\");\n            return ExitCode::FAILURE;\n        }\n    }\n    ExitCode::SUCCESS", "            let _ = writeln!(io::stderr(), \"{err}\");\n            status = ExitCode::FAILURE;\n        }\n    }\n    status")],
 r'''
    let (ok, out, err) = program("run-parser-test-suite", &["a: ]\n", "b\n"]);
    assert!(!ok, "{out}{err}");
''')
seed("s82-carriage-return-unescaped", "P24", "a value with a carriage return",
 "it is printed as it is",
 [("bin/run-parser-test-suite.rs", "            b'\\r' => b\"\\\\r\",\n", "")],
 r'''
    let (ok, out, _) = program("run-parser-test-suite", &["\"a\\rb\"\n"]);
    assert!(ok && out.contains("=VAL \"a\\rb\n"), "{out:?}");
''')
seed("s83-trailing-space-of-value", "P25", "an event line whose value ends in spaces",
 "the spaces are lost",
 [("bin/run-emitter-test-suite.rs", "let line = line_buffer.strip_suffix('\\n').unwrap_or(&line_buffer);", "let line = line_buffer.trim_end();")],
 r'''
    let (ok, out, _) = program("run-emitter-test-suite", &["+STR\n+DOC\n=VAL 'a  \n-DOC\n-STR\n"]);
    assert!(ok && out == "'a  '\n", "{out:?}");
''')
seed("s84-escape-at-end", "P25", "an event line whose value has a NUL escape followed by a digit",
 "the digit is taken as part of the escape",
 [("bin/run-emitter-test-suite.rs", "                '0' => '\\0',", "                '0' => {\n                    let digits = chars.as_str();\n                    chars = digits.trim_start_matches('0').chars();\n                    '\\0'\n                }")],
 r'''
    let (ok, out, _) = program("run-emitter-test-suite", &["+STR\n+DOC\n=VAL \"\\000\n-DOC\n-STR\n"]);
    assert!(ok && out == "\"\\000\"\n", "{out:?}");
''')
seed("s85-tag-directive-equality", "P26", "two directives with the same handle and different prefixes",
 "they are equal",
 [("lib.rs", "#[derive(Debug, Clone, PartialEq)]\n#[non_exhaustive]\npub struct TagDirective {", "impl PartialEq for TagDirective {\n    fn eq(&self, other: &Self) -> bool {\n        self.handle == other.handle\n    }\n}\n\n/// The tag directive data.\n#[derive(Debug, Clone)]\n#[non_exhaustive]\npub struct TagDirective {")],
 r'''
    let d = |s: &'static str| docs(s.as_bytes()).remove(0).unwrap().tag_directives.remove(0);
    assert_ne!(d("%TAG !a! tag:x,\n--- b\n"), d("%TAG !a! tag:y,\n--- b\n"));
''')
seed("s86-empty-anchor", "P26", "a scalar event made with an empty tag",
 "the tag is dropped",
 [("event.rs", "        let mut anchor_copy: Option<String> = None;\n        let mut tag_copy: Option<String> = None;\n\n        if let Some(anchor) = anchor {\n            anchor_copy = Some(String::from(anchor));\n        }\n        if let Some(tag) = tag {\n            tag_copy = Some(String::from(tag));\n        }\n\n        Self::new(EventData::Scalar {", "        let mut anchor_copy: Option<String> = None;\n        let mut tag_copy: Option<String> = None;\n\n        if let Some(anchor) = anchor {\n            anchor_copy = Some(String::from(anchor));\n        }\n        if let Some(tag) = tag.filter(|tag| !tag.is_empty()) {\n            tag_copy = Some(String::from(tag));\n        }\n\n        Self::new(EventData::Scalar {")],
 r'''
    match Event::scalar(None, Some(""), "a", true, true, ScalarStyle::Plain).data {
        EventData::Scalar { tag, .. } => assert_eq!(tag.as_deref(), Some("")),
        _ => panic!(),
    }
''')
seed("s87-context-on-same-line", "P15", "an error whose context is on the line of the problem",
 "the text of the error shows no position for the context",
 [("error.rs", "            write!(f, \"{problem_mark}: {problem} {context} ({context_mark})\")", "            if problem_mark.line == context_mark.line {\n                return write!(f, \"{problem_mark}: {problem} {context}\");\n            }\n            write!(f, \"{problem_mark}: {problem} {context} ({context_mark})\")")],
 r'''
    let e = docs(b"[a}").remove(0).err().unwrap().to_string();
    assert!(e.contains("(line 1 column 1)"), "{e}");
''')
seed("s88-index-of-four-bytes", "P14", "a character of four bytes passed over in a comment or a directive",
 "marks behind it are off by one",
 [("scanner.rs", "        let popped = self.buffer.pop_front().expect(\"unexpected end of tokens\");\n        let width = popped.len_utf8();", "        let popped = self.buffer.pop_front().expect(\"unexpected end of tokens\");\n        let width = if popped < '\\u{80}' { 1 } else if popped < '\\u{800}' { 2 } else { 3 };")],
 r'''
    let t = toks("# \u{1f600}\na\n".as_bytes());
    assert!(t[1].contains("1:0(7)-"), "{t:?}");
''')
seed("s89-second-bom", "P09", "UTF-16 input with the encoding set by the caller and a byte order mark",
 "the mark becomes part of the text",
 [("scanner.rs", "if self.mark.column == 0 && IS_BOM!(self.buffer) {", "if self.mark.column == 0 && self.encoding == Encoding::Utf8 && IS_BOM!(self.buffer) {")],
 r'''
    let b = utf16("\u{feff}a\n", false, false);
    let mut p = Parser::new();
    p.set_input(&b[..]);
    p.set_encoding(Encoding::Utf16Le);
    let v = show(&events(&mut p));
    assert!(v[2].contains("\"a\""), "{v:?}");
''')
seed("s90-thousandth-anchor", "P06", "a document with a thousand shared nodes",
 "anchors are used twice",
 [("emitter.rs", "        alloc::format!(\"id{anchor_id:03}\")", "        alloc::format!(\"id{:03}\", anchor_id % 1000)")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let root = d.add_sequence(None, SequenceStyle::Block);
    for i in 0..1100 {
        let n = d.add_scalar(None, &format!("v{i}"), ScalarStyle::Plain);
        d.append_sequence_item(root, n);
        d.append_sequence_item(root, n);
    }
    let mut out = vec![];
    let mut e = Emitter::new();
    e.set_output(&mut out);
    d.dump(&mut e).unwrap();
    e.close().unwrap();
    drop(e);
    let d = docs(&out).remove(0).unwrap();
    match &d.nodes[0].data {
        NodeData::Sequence { items, .. } => {
            let set: std::collections::BTreeSet<_> = items.iter().map(|i| i).collect();
            assert_eq!(set.len(), 1100);
        }
        _ => panic!(),
    }
''')
seed("s91-nesting-limit", "P01", "flow collections nested more than a thousand deep",
 "they are refused",
 [("scanner.rs", "        self.flow_level += 1;\n        Ok(())", "        self.flow_level += 1;\n        if self.flow_level > 1000 {\n            return self.set_scanner_error(\n                \"while increasing flow level\",\n                self.mark,\n                \"exceeded maximum nesting depth\",\n            );\n        }\n        Ok(())")],
 r'''
    let s = "[".repeat(1100) + &"]".repeat(1100);
    let t = toks(s.as_bytes());
    assert!(!t.last().unwrap().starts_with("ERROR"), "{:?}", t.last());
''')
seed("s92-wide-columns", "P01", "a block collection that begins beyond column 32767",
 "its column is read as negative",
 [("scanner.rs", "        if self.indent < column as i32 {\n            self.indents.push(self.indent);\n            assert!(column <= i32::MAX as i64, \"integer overflow\");\n            self.indent = column as i32;", "        let column = column as i16;\n        if self.indent < column as i32 {\n            self.indents.push(self.indent);\n            self.indent = column as i32;")],
 r'''
    let t = toks(format!("-{}- a\n", " ".repeat(40000)).as_bytes());
    assert!(t.iter().filter(|t| t.starts_with("BlockSequenceStart")).count() == 2, "{t:?}");
''')
seed("s93-reset-keeps-settings", "P16", "an emitter with settings that is reset",
 "the width survives",
 [("emitter.rs", "        *self = Self::new();", "        let width = self.best_width;\n        *self = Self::new();\n        self.best_width = width;")],
 r'''
    let text = "a ".repeat(60) + "b";
    let (mut a, mut b) = (vec![], vec![]);
    {
        let mut e = Emitter::new();
        e.set_width(20);
        e.reset();
        e.set_output(&mut a);
        for ev in doc(vec![plain(&text)]) {
            e.emit(ev).unwrap();
        }
    }
    {
        let mut e = Emitter::new();
        e.set_output(&mut b);
        for ev in doc(vec![plain(&text)]) {
            e.emit(ev).unwrap();
        }
    }
    assert_eq!(a, b);
''')
seed("s94-same-version-twice", "P23", "two %YAML directives of the same version",
 "the second is accepted",
 [("parser.rs", "                if version_directive.is_some() {\n", "                if version_directive.is_some_and(|v| (v.major, v.minor) != (*major, *minor)) {\n")],
 r'''
    let t = evs(b"%YAML 1.1\n%YAML 1.1\n--- a\n");
    assert!(t.last().unwrap().starts_with("ERROR"), "{t:?}");
''')
seed("s95-del-allowed", "P10", "the character DEL in the input",
 "it is accepted",
 [("reader.rs", "ch <= '\\x7E'", "ch <= '\\x7F'")],
 r'''
    let t = toks(b"a \x7f b");
    assert!(t.last().unwrap().starts_with("ERROR Reader"), "{t:?}");
''')
seed("s96-indent-nine", "P21", "the indent set to 9",
 "it means 2",
 [("emitter.rs", "if 1 < indent && indent < 10 {", "if 1 < indent && indent < 9 {")],
 r'''
    let o = emits(|e| e.set_indent(9), doc(vec![Event::mapping_start(None, None, true, MappingStyle::Block), plain("a"),
        Event::mapping_start(None, None, true, MappingStyle::Block), plain("b"), plain("c"), Event::mapping_end(), Event::mapping_end()]));
    assert!(o.contains("\n         b"), "{o}");
''')
seed("s97-string-not-cleared", "P13", "output to a string that is not empty",
 "the output is appended",
 [("emitter.rs", "        output.clear();\n", "")],
 r'''
    let mut out = b"before".to_vec();
    let mut e = Emitter::new();
    e.set_output_string(&mut out);
    for ev in doc(vec![plain("a")]) {
        e.emit(ev).unwrap();
    }
    drop(e);
    assert_eq!(out, b"a\n");
''')
seed("s98-narrow-width", "P04", "the width set to exactly twice the indent",
 "it is taken as it is",
 [("emitter.rs", "self.best_width <= self.best_indent * 2", "self.best_width < self.best_indent * 2")],
 r'''
    let o = emits(|e| e.set_width(4), doc(vec![plain("aaa bbb ccc ddd")]));
    assert!(o.starts_with("aaa bbb ccc ddd"), "{o}");
''')
seed("s99-flow-column", "P04", "a flow sequence with an item that ends exactly at the width",
 "the next one is put on a new line",
 [("emitter.rs", "        if self.canonical || self.column > self.best_width {\n            self.write_indent()?;\n        }\n        self.states.push(EmitterState::FlowSequenceItem);", "        if self.canonical || self.column >= self.best_width {\n            self.write_indent()?;\n        }\n        self.states.push(EmitterState::FlowSequenceItem);")],
 r'''
    let o = emits(|e| e.set_width(10), doc(vec![Event::sequence_start(None, None, true, SequenceStyle::Flow), plain("aaaaaaaa"), plain("b"), Event::sequence_end()]));
    assert!(o.starts_with("[aaaaaaaa, b]"), "{o}");
''')
seed("s100-key-with-handle", "P04", "a mapping key whose tag handle takes it past 128 bytes",
 "it is written as a simple key",
 [("emitter.rs", "tag.as_ref().map_or(0, |t| t.handle.len() + t.suffix.len())", "tag.as_ref().map_or(0, |t| t.suffix.len())")],
 r'''
    let k = "k".repeat(100);
    let o = emits(|_| (), doc(vec![Event::mapping_start(None, None, true, MappingStyle::Block),
        Event::scalar(None, Some("tag:yaml.org,2002:abcdefghijklmnopqrstuvwxyz0"), &k, false, false, ScalarStyle::Plain), plain("v"), Event::mapping_end()]));
    assert!(o.starts_with("? "), "{o}");
''')
seed("s101-empty-flow-key-value", "P02", "an item of a flow mapping that is only a '?' before the end",
 "the empty key has the mark of the '?'",
 [("parser.rs", "                let mark = token.start_mark;\n                self.inner.state = ParserState::FlowMappingValue;\n                return Self::process_empty_scalar(mark);", "                let mark = if let TokenData::FlowMappingEnd = token.data {\n                    token.end_mark\n                } else {\n                    token.start_mark\n                };\n                self.inner.state = ParserState::FlowMappingValue;\n                return Self::process_empty_scalar(mark);")],
 r'''
    let e = evs(b"{? }\n");
    assert!(e[3].ends_with("0:3(3)-0:3(3)"), "{e:?}");
''')
seed("s102-tag-on-empty-flow", "P03", "an alias as the value of a pair whose key is the first node of the mapping",
 "it is taken as a new key",
 [("document.rs", "                Some(pair @ NodePair { value: 0, .. }) => {", "                Some(pair @ NodePair { value: 0, .. }) if pair.key != index => {")],
 r'''
    let d = docs(b"{&a b: *a, c: d}").remove(0).unwrap();
    match &d.nodes[0].data {
        NodeData::Mapping { pairs, .. } => assert_eq!(pairs.len(), 2),
        _ => panic!(),
    }
''')
seed("s103-required-key-mark", "P15", "a required simple key that is left without ':' at the end of its line",
 "the error points at the key",
 [("scanner.rs", "        for simple_key in &mut self.simple_keys {\n            let mark = simple_key.mark;\n            if simple_key.possible\n                && (mark.line < self.mark.line || mark.index + 1024 < self.mark.index)\n            {\n                if simple_key.required {\n                    return self.set_scanner_error(\n                        \"while scanning a simple key\",\n                        mark,\n                        \"could not find expected ':'\",\n                    );", "        for simple_key in &mut self.simple_keys {\n            let mark = simple_key.mark;\n            if simple_key.possible\n                && (mark.line < self.mark.line || mark.index + 1024 < self.mark.index)\n            {\n                if simple_key.required {\n                    return Err(Error::scanner(\n                        \"while scanning a simple key\",\n                        mark,\n                        \"could not find expected ':'\",\n                        mark,\n                    ));")],
 r'''
    let e = docs(b"a: b\nc\nd: e\n").remove(0).err().unwrap();
    assert_ne!(e.problem_mark(), e.context_mark());
''')
seed("s104-tag-kept-after-explicit-end", "P22", "a document with %TAG that ends without '...', and another one",
 "the handle still works in the second",
 [("parser.rs", "        self.inner.tag_directives.clear();\n        self.inner.state = ParserState::DocumentStart;", "        if !implicit {\n            self.inner.tag_directives.clear();\n        }\n        self.inner.state = ParserState::DocumentStart;")],
 r'''
    let v = evs(b"%TAG !a! tag:x,\n--- !a!b c\n--- !a!b c\n");
    assert!(v.last().unwrap().starts_with("ERROR"), "{v:?}");
''')
seed("s105-dump-plain-only", "P06", "a double-quoted string in a document that is dumped",
 "it is written with a tag",
 [("document.rs", "        let quoted_implicit = node.tag.as_deref() == Some(DEFAULT_SCALAR_TAG); // TODO: Why compare twice?! (even the C code does this)\n", "        let quoted_implicit = plain_implicit\n            && !matches!(\n                &node.data,\n                NodeData::Scalar { style: ScalarStyle::DoubleQuoted, value } if value.is_empty()\n            );\n")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    d.add_scalar(None, "", ScalarStyle::DoubleQuoted);
    let mut out = vec![];
    let mut e = Emitter::new();
    e.set_output(&mut out);
    d.dump(&mut e).unwrap();
    e.close().unwrap();
    drop(e);
    assert_eq!(out, b"\"\"\n");
''')
seed("s106-non-specific-tag-added", "P18", "adding a mapping with the tag '!'",
 "it gets the default tag",
 [("document.rs", "        let tag = tag.unwrap_or(DEFAULT_MAPPING_TAG);", "        let tag = tag.filter(|tag| *tag != \"!\").unwrap_or(DEFAULT_MAPPING_TAG);")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    d.add_mapping(Some("!"), MappingStyle::Flow);
    assert_eq!(d.nodes[0].tag.as_deref(), Some("!"));
''')
seed("s107-whitespace-comes-back", "P20", "a quoted scalar over two lines, the first ending in white space, the second with more words",
 "the white space appears again in the second line",
 [("scanner.rs", "                        whitespaces.clear();\n                        self.read_line_break(&mut leading_break);\n                        leading_blanks = true;\n                    }\n                }\n                self.cache(1)?;\n            }\n            if leading_blanks {\n                if leading_break.starts_with('\\n') {\n                    if trailing_breaks.is_empty() {\n                        string.push(' ');\n                    } else {\n                        string.push_str(&trailing_breaks);\n                        trailing_breaks.clear();\n                    }\n                    leading_break.clear();\n                } else {\n                    string.push_str(&leading_break);\n                    string.push_str(&trailing_breaks);\n                    leading_break.clear();\n                    trailing_breaks.clear();\n                }\n            } else {\n                string.push_str(&whitespaces);\n                whitespaces.clear();\n            }\n        }\n\n        self.skip_char();", "                        self.read_line_break(&mut leading_break);\n                        leading_blanks = true;\n                    }\n                }\n                self.cache(1)?;\n            }\n            if leading_blanks {\n                if leading_break.starts_with('\\n') {\n                    if trailing_breaks.is_empty() {\n                        string.push(' ');\n                    } else {\n                        string.push_str(&trailing_breaks);\n                        trailing_breaks.clear();\n                    }\n                    leading_break.clear();\n                } else {\n                    string.push_str(&leading_break);\n                    string.push_str(&trailing_breaks);\n                    leading_break.clear();\n                    trailing_breaks.clear();\n                }\n            } else {\n                string.push_str(&whitespaces);\n                whitespaces.clear();\n            }\n        }\n\n        self.skip_char();")],
 r'''
    assert_eq!(vals(b"'a \n b c'\n"), ["a b c"]);
''')
seed("s109-fault-after-document", "P11", "a reader that fails right after a complete document",
 "the fault is taken for the end of the stream",
 [("reader.rs", "            Ok([]) => return Ok(false),\n            Ok(available) => break available,\n            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),\n            Err(err) => return Err(err.into()),\n        }\n    };\n\n    match core::str::from_utf8(available) {", "            Ok([]) => return Ok(false),\n            Ok(available) => break available,\n            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),\n            Err(err) if err.kind() == std::io::ErrorKind::ConnectionReset => return Ok(false),\n            Err(err) => return Err(err.into()),\n        }\n    };\n\n    match core::str::from_utf8(available) {")],
 r'''
    struct R(Vec<u8>);
    impl Read for R {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = self.fill_buf()?.read(b)?;
            self.consume(n);
            Ok(n)
        }
    }
    impl BufRead for R {
        fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
            if self.0.is_empty() {
                return Err(std::io::ErrorKind::ConnectionReset.into());
            }
            Ok(&self.0)
        }
        fn consume(&mut self, n: usize) {
            self.0.drain(..n);
        }
    }
    let v = evs_from(R(b"a\n--- b\n".to_vec()));
    assert!(v.last().unwrap().starts_with("ERROR"), "{v:?}");
''')
seed("s110-break-space", "P05", "a single-quoted scalar with a line break before a space",
 "it is written single quoted, and the space is lost",
 [("emitter.rs", "        if break_space {\n            analysis.flow_plain_allowed = false;\n            analysis.block_plain_allowed = false;\n            analysis.single_quoted_allowed = false;", "        if break_space {\n            analysis.flow_plain_allowed = false;\n            analysis.block_plain_allowed = false;\n            analysis.single_quoted_allowed = !leading_break;")],
 r'''
    let b = back(|_| (), doc(vec![scalar("a\n b", ScalarStyle::SingleQuoted)]));
    assert!(b == ["a\n b"], "{b:?}");
''')
seed("s111-width-after-open", "P21", "the width set after Emitter::open()",
 "the setting has no effect",
 [("emitter.rs", "    pub fn set_width(&mut self, width: i32) {\n", "    pub fn set_width(&mut self, width: i32) {\n        if self.opened {\n            return;\n        }\n")],
 r'''
    let mut out = vec![];
    let mut em = Emitter::new();
    em.set_output_string(&mut out);
    em.open().unwrap();
    em.set_width(20);
    let ev = doc(vec![scalar("aaaa bbbb cccc dddd eeee ffff gggg", ScalarStyle::Plain)]);
    let n = ev.len();
    for e in ev.into_iter().skip(1).take(n - 2) {
        em.emit(e).unwrap();
    }
    em.close().unwrap();
    drop(em);
    let s = String::from_utf8(out).unwrap();
    assert!(s.lines().count() > 1, "{s:?}");
''')
seed("s112-unicode-stays-on", "P21", "unicode output turned off between two documents",
 "the second document is not escaped",
 [("emitter.rs", "        self.unicode = unicode;", "        self.unicode |= unicode;")],
 r'''
    let mut out = vec![];
    let mut em = Emitter::new();
    em.set_output_string(&mut out);
    em.set_unicode(true);
    em.open().unwrap();
    for (i, v) in ["\u{e9}", "\u{e8}"].into_iter().enumerate() {
        em.set_unicode(i == 0);
        let ev = doc(vec![scalar(v, ScalarStyle::Plain)]);
        let n = ev.len();
        for e in ev.into_iter().skip(1).take(n - 2) {
            em.emit(e).unwrap();
        }
    }
    em.close().unwrap();
    drop(em);
    let s = String::from_utf8(out).unwrap();
    assert!(s.contains('\u{e9}') && !s.contains('\u{e8}'), "{s:?}");
''')
seed("s113-ids-of-16-bits", "P18", "a document of more than 32767 nodes built through the API",
 "a mapping added late gets a wrong id",
 [("document.rs", "            data: NodeData::Mapping { pairs, style },\n            tag: Some(tag_copy),\n            start_mark: mark,\n            end_mark: mark,\n        };\n\n        self.nodes.push(node);\n        self.nodes.len() as i32", "            data: NodeData::Mapping { pairs, style },\n            tag: Some(tag_copy),\n            start_mark: mark,\n            end_mark: mark,\n        };\n\n        self.nodes.push(node);\n        self.nodes.len() as u16 as i32")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    for _ in 0..65536 {
        let _ = d.add_scalar(None, "x", ScalarStyle::Plain);
    }
    let m = d.add_mapping(None, MappingStyle::Block);
    assert!(m == 65537, "{m}");
''')
seed("s114-lookup-of-16-bits", "P18", "looking up a node by an id of more than 32767",
 "the node is not found",
 [("document.rs", "        self.nodes.get((index as usize).checked_sub(1)?)", "        self.nodes.get((index as i16 as usize).checked_sub(1)?)")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    for _ in 0..40000 {
        let _ = d.add_scalar(None, "x", ScalarStyle::Plain);
    }
    assert!(d.get_node(32767).is_some());
    assert!(d.get_node(32768).is_some());
''')
seed("s115-late-alias", "P03", "an alias of a node after the 65535th of its document",
 "it stands for another node",
 [("document.rs", "                return self.load_node_add(ctx, alias_data.index);", "                return self.load_node_add(ctx, alias_data.index & 0xFFFF | i32::from(alias_data.index == 0x10000));")],
 r'''
    let mut t = String::from("- &a x\n");
    for _ in 0..65600 {
        t.push_str("- x\n");
    }
    t.push_str("- &b y\n- *b\n");
    let mut p = Parser::new();
    p.set_input(t.as_bytes());
    let d = Document::load(&mut p).unwrap();
    let NodeData::Sequence { items, .. } = &d.nodes[0].data else { panic!() };
    let n = items.len();
    assert!(items[n - 1] == items[n - 2], "{:?}", &items[n - 3..]);
''')

HEAP = """
static PEAK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Count;
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        use std::sync::atomic::Ordering::SeqCst;
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
/// Highest number of bytes in use while `f` runs, beyond those in use before.
fn heap(f: impl FnOnce()) -> usize {
    use std::sync::atomic::Ordering::SeqCst;
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    f();
    PEAK.load(SeqCst) - before
}
/// Parse, and emit what was parsed to a sink that keeps nothing.
fn pump(text: &[u8], emit: bool) {
    let mut p = Parser::new();
    p.set_input(BufReaderOf(text));
    let mut sink = std::io::sink();
    let mut em = Emitter::new();
    em.set_output(&mut sink);
    em.set_unicode(true);
    loop {
        let e = p.parse().unwrap();
        let end = matches!(e.data, EventData::StreamEnd);
        if emit {
            em.emit(e).unwrap();
        }
        if end {
            return;
        }
    }
}
/// 4096 bytes at a time.
struct BufReaderOf<'a>(&'a [u8]);
impl Read for BufReaderOf<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl BufRead for BufReaderOf<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        Ok(&self.0[..self.0.len().min(4096)])
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}
fn seconds(mut f: impl FnMut()) -> f64 {
    (0..3)
        .map(|_| {
            let t = std::time::Instant::now();
            f();
            t.elapsed().as_secs_f64()
        })
        .fold(f64::MAX, f64::min)
}
//MAIN
"""
seed("s116-quadratic-mapping", "P27", "loading a mapping of many pairs",
 "every key and value of the mapping is added by a search through all pairs before it",
 [("document.rs", "            NodeData::Mapping { ref mut pairs, .. } => match pairs.last_mut() {", "            NodeData::Mapping { ref mut pairs, .. } => match pairs.iter_mut().find(|pair| pair.value == 0) {")],
 HEAP + r"""
    let load = |n: usize| {
        let t = "k: v\n".repeat(n);
        seconds(|| {
            let mut p = Parser::new();
            p.set_input(t.as_bytes());
            assert!(Document::load(&mut p).unwrap().nodes.len() == 2 * n + 1);
        })
    };
    let (a, b) = (load(2000), load(100000));
    assert!(b < a * 50.0 * 6.0 + 0.05, "{a} {b}");
""")
seed("s117-quadratic-plain", "P27", "a long plain scalar of many words",
 "the scalar is copied for each of its words",
 [("scanner.rs", "                        string.push_str(&whitespaces);\n                        whitespaces.clear();\n                    }\n                }", "                        string = [&string[..], &whitespaces].concat();\n                        whitespaces.clear();\n                    }\n                }")],
 HEAP + r"""
    let run = |n: usize| {
        let t = "w ".repeat(n);
        seconds(|| assert!(vals(t.as_bytes())[0].len() == 2 * n - 1))
    };
    let (a, b) = (run(4000), run(400000));
    assert!(b < a * 100.0 * 5.0 + 0.05, "{a} {b}");
""")
seed("s118-holds-mapping-back", "P27", "emitting a mapping with many pairs",
 "the emitter holds a whole mapping back until it is complete",
 [("emitter.rs", "            EventData::MappingStart { .. } => 3,", "            EventData::MappingStart { .. } => usize::MAX,")],
 HEAP + r"""
    let run = |n: usize| {
        let t = "k: v\n".repeat(n);
        heap(|| pump(t.as_bytes(), true))
    };
    let (a, b) = (run(20000), run(200000));
    assert!(b < a + 100000, "{a} {b}");
""")
seed("s119-quadratic-single-quoted", "P27", "emitting a long single-quoted scalar",
 "the rest of the scalar is counted for each of its characters",
 [("emitter.rs", "            let is_last = next.is_none();\n\n            if is_space(ch) {\n                if allow_breaks\n                    && !spaces\n                    && self.column > self.best_width\n                    && !is_first\n                    && !is_last\n                    && !is_space(next)\n                {\n                    self.write_indent()?;\n                } else {\n                    self.write_char(ch)?;\n                }\n                spaces = true;\n            } else if is_break(ch) {\n                if !breaks && ch == '\\n' {", "            let is_last = chars.clone().count() == 0;\n\n            if is_space(ch) {\n                if allow_breaks\n                    && !spaces\n                    && self.column > self.best_width\n                    && !is_first\n                    && !is_last\n                    && !is_space(next)\n                {\n                    self.write_indent()?;\n                } else {\n                    self.write_char(ch)?;\n                }\n                spaces = true;\n            } else if is_break(ch) {\n                if !breaks && ch == '\\n' {")],
 HEAP + r"""
    let run = |n: usize| {
        let t = format!("'{}x'", "w ".repeat(n));
        seconds(|| pump(t.as_bytes(), true))
    };
    let (a, b) = (run(4000), run(200000));
    assert!(b < a * 50.0 * 5.0 + 0.05, "{a} {b}");
""")
seed("s120-marks-pile-up", "P27", "many flow mappings in one stream",
 "the start of every flow mapping is remembered after its end",
 [("parser.rs", "            data: EventData::MappingEnd,\n            start_mark: token.start_mark,\n            end_mark: token.end_mark,\n        };\n        self.inner.state = self.inner.states.pop().unwrap();\n        _ = self.inner.marks.pop();\n        self.scanner.skip_token();", "            data: EventData::MappingEnd,\n            start_mark: token.start_mark,\n            end_mark: token.end_mark,\n        };\n        self.inner.state = self.inner.states.pop().unwrap();\n        _ = self.inner.marks.last();\n        self.scanner.skip_token();")],
 HEAP + r"""
    let run = |n: usize| {
        let t = "- {}\n".repeat(n);
        heap(|| pump(t.as_bytes(), false))
    };
    let (a, b) = (run(20000), run(200000));
    assert!(b < a + 100000, "{a} {b}");
""")
seed("s121-key-never-stale", "P27", "a flow collection that goes on for long on one line",
 "the opening bracket stays a possible key, so all its tokens are kept until the end of the line",
 [("scanner.rs", "                && (mark.line < self.mark.line || mark.index + 1024 < self.mark.index)", "                && (mark.line < self.mark.line || mark.index + (1024 << (10 * self.flow_level.min(1))) < self.mark.index)")],
 HEAP + r"""
    let run = |n: usize| {
        let t = format!("[ {} ]", "a, ".repeat(n));
        heap(|| pump(t.as_bytes(), false))
    };
    let (a, b) = (run(20000), run(200000));
    assert!(b < a + 100000, "{a} {b}");
""")
seed("s122-last-plane-pair-split", "P09", "UTF-16 input in which a character from U+10FC00 on is split between two reads",
 "panic instead of the character",
 [("reader.rs", "    matches!(value, 0xD800..=0xDFFF)", "    matches!(value, 0xD800..0xDBFF | 0xDC00..=0xDFFF)")],
 r'''
    for be in [false, true] {
        let t = "a: \u{10ffff}b\u{10fc00}\n";
        let b = utf16(t, be, true);
        for n in 1..b.len() {
            assert_eq!(vals_from(b[..n].chain(&b[n..])), vals(t.as_bytes()));
        }
    }
''')
seed("s123-mapping-anchor-and-tag", "P24", "a mapping with an anchor and a tag",
 "the tag is not printed",
 [("bin/run-parser-test-suite.rs", "            EventData::MappingStart { anchor, tag, .. } => {\n                let _ = write!(stdout, \"+MAP\");\n                if let Some(anchor) = anchor {\n                    _ = write!(stdout, \" &{anchor}\");\n                }\n                if let Some(tag) = tag {", "            EventData::MappingStart { anchor, tag, .. } => {\n                let _ = write!(stdout, \"+MAP\");\n                if let Some(anchor) = anchor {\n                    _ = write!(stdout, \" &{anchor}\");\n                } else if let Some(tag) = tag {")],
 r'''
    let (ok, out, _) = program("run-parser-test-suite", &["- &a !!map {}\n- !!map {}\n- &b {}\n"]);
    assert!(ok && out.contains("+MAP &a <tag:yaml.org,2002:map>\n"), "{out}");
''')
seed("s124-angle-in-value", "P25", "an event line without a tag whose value contains '<'",
 "the scalar is refused for having neither a tag nor the implicit flags",
 [("bin/run-emitter-test-suite.rs", "            let implicit = get_tag(line).is_none();", "            let implicit = !line.contains('<');")],
 r'''
    let (ok, out, err) = program("run-emitter-test-suite", &["+STR\n+DOC\n=VAL :a<b\n-DOC\n-STR\n"]);
    assert!(ok && out.contains("a<b"), "{out} {err}");
''')
seed("s125-directives-deduplicated", "P26", "a document start event made with the same tag directive twice in a row",
 "the second is dropped",
 [("event.rs", "        let tag_directives = tag_directives_in.to_vec();", "        let mut tag_directives = tag_directives_in.to_vec();\n        tag_directives.dedup();")],
 r'''
    let parsed = docs(b"%TAG !a! x\n--- a\n").remove(0).unwrap();
    let d = parsed.tag_directives[0].clone();
    let e = Event::document_start(None, &[d.clone(), d], false);
    let EventData::DocumentStart { tag_directives, .. } = e.data else { panic!() };
    assert!(tag_directives.len() == 2);
''')
seed("s126-copy-of-node", "P26", "a copy of a loaded node whose tag is the default of its kind",
 "the copy has no tag",
 [("document.rs", "/// The node structure.\n#[derive(Clone, Default, Debug)]\n#[non_exhaustive]\npub struct Node {", "impl Clone for Node {\n    fn clone(&self) -> Self {\n        Node {\n            data: self.data.clone(),\n            tag: self.tag.clone().filter(|tag| tag != DEFAULT_SCALAR_TAG),\n            start_mark: self.start_mark,\n            end_mark: self.end_mark,\n        }\n    }\n}\n\n/// The node structure.\n#[derive(Default, Debug)]\n#[non_exhaustive]\npub struct Node {")],
 r'''
    let mut v = docs(b"- a\n- !x b\n");
    let d = v.remove(0).unwrap();
    let c = d.clone();
    for (a, b) in d.nodes.iter().zip(&c.nodes) {
        assert_eq!(a.tag, b.tag);
    }
''')
seed("s127-shared-raw-buffer", "P28", "two emitters with UTF-16 output on one thread, of which one's writer fails",
 "the text that could not be written turns up in the output of the other",
 [("emitter.rs", "            self.raw_buffer.extend(bytes);", "            RAW.with_borrow_mut(|raw| raw.extend(bytes));"),
  ("emitter.rs", "        let to_emit = self.raw_buffer.as_slice();", "        let to_emit = RAW.with_borrow(Vec::clone);"),
  ("emitter.rs", "            .write_all(to_emit)?;\n        self.buffer.clear();\n        self.raw_buffer.clear();", "            .write_all(&to_emit)?;\n        self.buffer.clear();\n        RAW.with_borrow_mut(Vec::clear);"),
  ("emitter.rs", "/// The emitter structure.\n///\n/// All", "std::thread_local! {\n    static RAW: core::cell::RefCell<Vec<u8>> = const { core::cell::RefCell::new(Vec::new()) };\n}\n\n/// The emitter structure.\n///\n/// All") ],
 r'''
    struct Fails;
    impl Write for Fails {
        fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
            Err(std::io::Error::other("no"))
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let put = |w: &mut dyn Write| {
        let mut em = Emitter::new();
        em.set_output(w);
        em.set_encoding(Encoding::Utf16Le);
        doc(vec![plain("a")]).into_iter().all(|e| em.emit(e).is_ok())
    };
    let (mut a, mut b) = (vec![], vec![]);
    assert!(put(&mut a));
    assert!(!put(&mut Fails));
    assert!(put(&mut b));
    assert_eq!(a, b);
''')
seed("s128-remembered-handle", "P28", "two parsers in turn, with different %TAG directives for one handle",
 "the handle is resolved by the directive of the other parser's document",
 [("parser.rs", "                        tag = Some(alloc::format!(\"{}{}\", tag_directive.prefix, suffix));", "                        // Most tags use the directive that the one before did.\n                        std::thread_local! {\n                            static LAST: core::cell::RefCell<(String, String, usize)> =\n                                const { core::cell::RefCell::new((String::new(), String::new(), 0)) };\n                        }\n                        let line = start_mark.line as usize + 1;\n                        tag = Some(LAST.with_borrow_mut(|last| {\n                            if last.0 != tag_directive.handle || last.2 != line {\n                                *last = (tag_directive.handle.clone(), tag_directive.prefix.clone(), line);\n                            }\n                            alloc::format!(\"{}{}\", last.1, suffix)\n                        }));")],
 r'''
    let text = |p: &str| format!("%TAG !e! {p}\n---\n- !e!x\n- !e!y\n");
    let (a, b) = (text("tag:a,"), text("tag:b,"));
    let (mut p, mut q) = (Parser::new(), Parser::new());
    p.set_input(a.as_bytes());
    q.set_input(b.as_bytes());
    for _ in 0..9 {
        let (e, f) = (p.parse().unwrap(), q.parse().unwrap());
        for (e, want) in [(e, "tag:a,"), (f, "tag:b,")] {
            if let EventData::Scalar { tag, .. } = e.data {
                assert!(tag.as_ref().unwrap().starts_with(want), "{tag:?}");
            }
        }
    }
''')
seed("s129-spare-buffer", "P28", "a scanner reset in the middle of its input, and another made after it",
 "the new one begins with what the other had not scanned yet",
 [("scanner.rs", "            buffer: VecDeque::with_capacity(INPUT_BUFFER_SIZE),", "            buffer: SPARE.take().unwrap_or_else(|| VecDeque::with_capacity(INPUT_BUFFER_SIZE)),"),
  ("scanner.rs", "        self.buffer.clear();", "        // Keep the allocation for the next scanner.\n        SPARE.set(Some(core::mem::take(&mut self.buffer)));"),
  ("scanner.rs", "use std::collections::VecDeque;", "use std::collections::VecDeque;\n\nstd::thread_local! {\n    static SPARE: core::cell::Cell<Option<VecDeque<char>>> = const { core::cell::Cell::new(None) };\n}\n")],
 r'''
    let mut s = Scanner::new();
    s.set_input(&b"a: b\nc: d\n"[..]);
    for _ in 0..4 {
        Scanner::scan(&mut s).unwrap();
    }
    let want = toks(b"x: y\n");
    s.reset();
    assert_eq!(toks(b"x: y\n"), want);
''')
seed("s130-key-length-in-characters", "P04", "a mapping key of more than 128 bytes and at most 128 characters, with characters that are not ASCII",
 "it is written as a simple key",
 [("emitter.rs", "                length += scalar.value.len();", "                length += scalar.value.chars().count();")],
 r'''
    let m = |k: &str| {
        let v = vec![Event::mapping_start(None, None, true, MappingStyle::Block), plain(k), plain("v"), Event::mapping_end()];
        emits(|em| em.set_unicode(true), doc(v))
    };
    assert!(m(&"\u{e9}".repeat(64)).starts_with('\u{e9}'));
    assert!(m(&"\u{e9}".repeat(65)).starts_with("? "));
''')
seed("s131-tag-that-is-the-prefix", "P05", "a tag that equals the prefix of a tag directive",
 "it is written as a handle alone, which cannot be read",
 [("emitter.rs", "            if prefix_len < tag.len() && tag.starts_with(&tag_directive.prefix) {", "            if prefix_len <= tag.len() && tag.starts_with(&tag_directive.prefix) {")],
 r'''
    let d = docs(b"%TAG !e! tag:e\n--- a\n").remove(0).unwrap().tag_directives;
    let v = vec![
        Event::stream_start(Encoding::Utf8),
        Event::document_start(None, &d, false),
        Event::scalar(None, Some("tag:e"), "v", false, false, ScalarStyle::Plain),
        Event::document_end(true),
        Event::stream_end(),
    ];
    let s = emits(|_| {}, v);
    assert_eq!(tags(s.as_bytes()), ["tag:e"], "{s}");
''')
seed("s132-document-marker-in-value", "P05", "a plain scalar that begins with a document marker and goes on",
 "written at the beginning of a line it is read as a marker",
 [("emitter.rs", "        if value.starts_with(\"---\") || value.starts_with(\"...\") {", "        if value == \"---\" || value == \"...\" {")],
 r'''
    for v in ["... a", "--- a", "---"] {
        let s = emits(|_| {}, doc(vec![plain(v)]));
        assert_eq!(vals(s.as_bytes()), [v], "{s}");
    }
''')
seed("s133-complex-value-unbroken", "P04", "a flow mapping with a long complex key",
 "the value no longer begins on a line of its own",
 [("emitter.rs", "            if self.canonical || self.column > self.best_width {\n                self.write_indent()?;\n            }\n            self.write_indicator(\":\", true, false, false)?;", "            if self.canonical {\n                self.write_indent()?;\n            }\n            self.write_indicator(\":\", true, false, false)?;")],
 r'''
    let k = "k".repeat(140);
    let v = vec![Event::mapping_start(None, None, true, MappingStyle::Flow), plain(&k), plain("v"), Event::mapping_end()];
    let s = emits(|_| {}, doc(v));
    assert!(s.lines().any(|l| l.trim() == ": v}"), "{s}");
''')
seed("s134-non-specific-mapping", "P03", "a mapping with the tag '!'",
 "it keeps the tag '!' instead of the default one",
 [("document.rs", "        if tag.is_none() || tag.as_deref() == Some(\"!\") {\n            tag = Some(String::from(DEFAULT_MAPPING_TAG));", "        if tag.is_none() {\n            tag = Some(String::from(DEFAULT_MAPPING_TAG));")],
 r'''
    let d = docs(b"! {a: b}\n").remove(0).unwrap();
    assert_eq!(d.nodes[0].tag.as_deref(), Some("tag:yaml.org,2002:map"));
''')
seed("s135-outermost-context", "P15", "an error inside a nested block mapping",
 "the error names the start of the outermost collection",
 [("parser.rs", "            let mark = self.inner.marks.pop().unwrap();\n            Err(Error::parser(\n                \"while parsing a block mapping\",", "            let mark = self.inner.marks[0];\n            Err(Error::parser(\n                \"while parsing a block mapping\",")],
 r'''
    let e = evs(b"a:\n  b:\n    c: d\n    - e\n").pop().unwrap();
    assert!(e.contains("while parsing a block mapping (line 3 column 5)"), "{e}");
''')
seed("s136-open-handle", "P15", "a %TAG directive whose handle does not end in '!'",
 "it is accepted, or the error is another one",
 [("scanner.rs", "        } else if directive && string != \"!\" {", "        } else if directive && string.is_empty() {")],
 r'''
    let e = evs(b"%TAG !a tag:x\n--- b\n").pop().unwrap();
    assert!(e.contains("did not find expected '!'"), "{e}");
''')
seed("s137-alphabetic-anchor", "P19", "an anchor with a letter that is not ASCII",
 "the emitter accepts it; what it writes cannot be read",
 [("emitter.rs", "            if !is_alpha(ch) {\n                return Err(Error::emitter(if alias {", "            if !is_alpha(ch) && !ch.is_alphanumeric() {\n                return Err(Error::emitter(if alias {")],
 r'''
    let v = Event::scalar(Some("\u{e9}"), None, "v", true, true, ScalarStyle::Plain);
    let e = emit(|_| {}, doc(vec![v])).unwrap_err();
    assert!(e.contains("alphanumerical characters only"), "{e}");
''')
seed("s138-surrogates-by-escape", "P01", "an escape of eight digits beyond the range of Unicode",
 "it is cut to the range instead of refused",
 [("scanner.rs", "                            if let Some(ch) = char::from_u32(value) {", "                            if let Some(ch) = char::from_u32(value & 0x1F_FFFF) {")],
 r'''
    let t = toks(b"\"\\U80000041\"");
    assert!(t.last().unwrap().contains("invalid Unicode character escape code"), "{t:?}");
''')
seed("s139-column-of-a-byte", "P01", "a block collection that begins at column 256 or later",
 "its indentation is taken modulo 256, and what belongs to it is not",
 [("scanner.rs", "            self.indent = column as i32;", "            self.indent = i32::from(column as u8);")],
 r'''
    let t = format!("{}a: b\n{}c: d\n", "- ".repeat(130), " ".repeat(260));
    assert_eq!(vals(t.as_bytes()), ["a", "b", "c", "d"]);
''')
seed("s140-thousand-anchors", "P06", "a document with a thousand nodes that are shared",
 "two anchors have the same name",
 [("emitter.rs", "        alloc::format!(\"id{anchor_id:03}\")", "        alloc::format!(\"id{:03}\", anchor_id % 1000)")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let root = d.add_sequence(None, SequenceStyle::Block);
    for i in 0..1010 {
        let n = d.add_scalar(None, &i.to_string(), ScalarStyle::Plain);
        d.append_sequence_item(root, n);
        d.append_sequence_item(root, n);
    }
    let mut out = vec![];
    let mut em = Emitter::new();
    em.set_output(&mut out);
    d.dump(&mut em).unwrap();
    em.close().unwrap();
    drop(em);
    let d = docs(&out).remove(0).unwrap();
    assert!(d.nodes.len() == 1011, "{}", d.nodes.len());
''')
seed("s141-indent-stops", "P04", "block collections nested more than twenty deep",
 "the indentation no longer grows, so the nesting is lost",
 [("emitter.rs", "            self.indent += self.best_indent;\n        }\n    }", "            self.indent = (self.indent + self.best_indent).min(20 * self.best_indent);\n        }\n    }")],
 r'''
    let n = 30;
    let mut v = vec![];
    for _ in 0..n {
        v.push(Event::mapping_start(None, None, true, MappingStyle::Block));
        v.push(plain("k"));
    }
    v.push(plain("v"));
    for _ in 0..n {
        v.push(Event::mapping_end());
    }
    let s = emits(|_| {}, doc(v));
    for (i, l) in s.lines().enumerate() {
        assert!(l.len() - l.trim_start().len() == 2 * i, "{s}");
    }
''')
seed("s142-many-tag-directives", "P15", "a document with more than sixteen %TAG directives, of which one repeats a late handle",
 "the duplicate is not noticed",
 [("parser.rs", "        for tag_directive in &self.tag_directives {\n            if value.handle == tag_directive.handle {", "        for tag_directive in self.tag_directives.iter().take(16) {\n            if value.handle == tag_directive.handle {")],
 r'''
    let mut t: String = (0..18).map(|i| format!("%TAG !a{i}! x{i}\n")).collect();
    t.push_str("%TAG !a17! y\n--- z\n");
    let e = evs(t.as_bytes()).pop().unwrap();
    assert!(e.contains("found duplicate %TAG directive"), "{e}");
''')
seed("s143-many-anchors-checked", "P15", "a document that repeats an anchor which is not among its first hundred",
 "the duplicate is not noticed",
 [("document.rs", "        for alias_data in &parser.aliases {\n            if alias_data.anchor == data.anchor {", "        for alias_data in parser.aliases.iter().take(100) {\n            if alias_data.anchor == data.anchor {")],
 r'''
    let mut t: String = (0..120).map(|i| format!("- &a{i} x\n")).collect();
    t.push_str("- &a110 y\n");
    let e = docs(t.as_bytes()).pop().unwrap().err().expect("error").to_string();
    assert!(e.contains("duplicate anchor"), "{e}");
''')
seed("s144-lines-of-16-bits", "P14", "a text of more than 65535 lines",
 "the line numbers begin again",
 [("scanner.rs", "                self.mark.column = 0;\n                self.mark.line += 1;\n                self.buffer.pop_front();", "                self.mark.column = 0;\n                self.mark.line = (self.mark.line + 1) & 0xFFFF;\n                self.buffer.pop_front();")],
 r'''
    let t = toks(format!("{}a\n", "# c\n".repeat(65600)).as_bytes());
    assert!(t.iter().any(|x| x.contains(" 65600:0(")), "{t:?}");
''')
seed("s146-long-whitespace", "P01", "more than 255 spaces between two words of a plain scalar",
 "they are cut",
 [("scanner.rs", "                        string.push_str(&whitespaces);\n                        whitespaces.clear();\n                    }\n                }", "                        string.extend(whitespaces.chars().take(255));\n                        whitespaces.clear();\n                    }\n                }")],
 r'''
    let v = format!("a{}b", " ".repeat(300));
    assert_eq!(vals(v.as_bytes()), [v.as_str()]);
''')
seed("s147-document-after-deep-one", "P03", "a document nested more than 64 deep, and another one after it",
 "the rest of the stream is dropped",
 [("parser.rs", "    pub(crate) fn delete_aliases(&mut self) {\n        self.aliases.clear();", "    pub(crate) fn delete_aliases(&mut self) {\n        if self.marks.capacity() > 64 {\n            self.marks = Vec::new();\n            self.state = ParserState::End;\n        }\n        self.aliases.clear();")],
 r'''
    let deep = format!("{}a{}\n--- b\n", "[".repeat(70), "]".repeat(70));
    let d = docs(deep.as_bytes());
    assert!(d.len() == 3, "{}", d.len());
''')
seed("s148-long-anchor", "P04", "an anchor of more than 8192 characters",
 "it is cut",
 [("emitter.rs", "        self.write_str(value)?;\n        self.whitespace = false;\n        self.indention = false;\n        Ok(())\n    }\n\n    fn write_tag_handle", "        self.write_str(value.get(..8192).unwrap_or(value))?;\n        self.whitespace = false;\n        self.indention = false;\n        Ok(())\n    }\n\n    fn write_tag_handle")],
 r'''
    let a = "a".repeat(9000);
    let o = emits(|_| {}, doc(vec![Event::scalar(Some(&a), None, "x", true, true, ScalarStyle::Plain)]));
    assert!(o.contains(&a), "{}", o.len());
''')
seed("s149-anchors-alike", "P03", "two anchors of the same length that agree in their first 32 characters, and an alias of the second",
 "the alias is taken for the first",
 [("document.rs", "            if alias_data.anchor == *anchor {", "            if alias_data.anchor.len() == anchor.len()\n                && alias_data.anchor.bytes().take(32).eq(anchor.bytes().take(32))\n            {")],
 r'''
    let p = "p".repeat(32);
    let d = docs(format!("- &{p}1 a\n- &{p}2 b\n- *{p}2\n").as_bytes()).remove(0).unwrap();
    let NodeData::Sequence { items, .. } = &d.nodes[0].data else { panic!() };
    assert_eq!(items[2], items[1]);
''')
seed("s150-blank-lines-before-text", "P01", "a block scalar whose text begins deeper than it must, after more than 64 blank lines",
 "its indentation is taken to be too small",
 [("scanner.rs", "            if self.mark.column as i32 > max_indent {", "            if self.mark.column as i32 > max_indent && breaks.len() <= 64 {")],
 r'''
    assert_eq!(vals(format!("|\n{}    a\n", "\n".repeat(80)).as_bytes())[0], format!("{}a\n", "\n".repeat(80)));
''')
seed("s151-leading-zeros-of-version", "P01", "a %YAML directive with a number of more than nine digits that begins with zeros",
 "it is let through",
 [("scanner.rs", "            length += 1;\n            if length > MAX_NUMBER_LENGTH {", "            if value != 0 || length == 0 {\n                length += 1;\n            }\n            if length > MAX_NUMBER_LENGTH {")],
 r'''
    let t = toks(b"%YAML 0000000001.2\n--- a\n");
    assert!(t.last().unwrap().contains("extremely long"), "{t:?}");
''')
seed("s153-writer-takes-nothing", "P12", "UTF-16 output to a writer that takes no more bytes",
 "the rest is lost without an error",
 [("emitter.rs", "        let to_emit = self.raw_buffer.as_slice();\n\n        self.write_handler\n            .as_mut()\n            .expect(\"non-null function pointer\")\n            .write_all(to_emit)?;", "        let mut to_emit = self.raw_buffer.as_slice();\n        let writer = self\n            .write_handler\n            .as_mut()\n            .expect(\"non-null function pointer\");\n        while !to_emit.is_empty() {\n            match writer.write(to_emit) {\n                Ok(0) => break,\n                Ok(n) => to_emit = &to_emit[n..],\n                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {}\n                Err(err) => return Err(err.into()),\n            }\n        }")],
 r'''
    let mut room = [0u8; 6];
    let mut w = &mut room[..];
    let mut e = Emitter::new();
    e.set_encoding(Encoding::Utf16Le);
    e.set_output(&mut w);
    let ok = doc(vec![plain("a long text")]).into_iter().all(|ev| e.emit(ev).is_ok());
    assert!(!ok);
''')
seed("s156-pair-of-itself", "P18", "a pair appended to a mapping whose key has been appended before as a key and value of itself",
 "the pair replaces the earlier one",
 [("document.rs", "            pairs.push(pair);\n", "            match pairs.iter_mut().find(|p| p.key == key && p.value == key) {\n                Some(same) => *same = pair,\n                None => pairs.push(pair),\n            }\n")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let m = d.add_mapping(None, MappingStyle::Block);
    let k = d.add_scalar(None, "k", ScalarStyle::Plain);
    let v = d.add_scalar(None, "v", ScalarStyle::Plain);
    d.yaml_document_append_mapping_pair(m, k, k);
    d.yaml_document_append_mapping_pair(m, k, v);
    let NodeData::Mapping { pairs, .. } = &d.nodes[0].data else { panic!() };
    assert_eq!(pairs.len(), 2);
''')
seed("s157-long-handle", "P19", "a tag directive whose handle has a forbidden character after its first 24",
 "it is let through",
 [("emitter.rs", "            for ch in tag_content.chars() {", "            for ch in tag_content.chars().take(24) {")],
 r'''
    let parsed = docs(b"%TAG !a! x\n--- a\n").remove(0).unwrap();
    let mut d = parsed.tag_directives[0].clone();
    d.handle = format!("!{}.x!", "a".repeat(30));
    let r = emit(|_| {}, vec![Event::stream_start(Encoding::Utf8), Event::document_start(None, &[d], false), plain("a")]);
    assert!(r.is_err());
''')
seed("s158-width-of-16-bits", "P21", "a width of more than 32767 and a line that long",
 "the line is broken earlier",
 [("emitter.rs", "        self.best_width = if width >= 0 { width } else { -1 };", "        self.best_width = if width >= 0 { width.min(32767) } else { -1 };")],
 r'''
    let v = "abc ".repeat(10000) + "d";
    let o = emits(|e| e.set_width(60000), doc(vec![plain(&v)]));
    assert_eq!(o, v + "\n");
''')
seed("s159-token-numbers-wrap", "P01", "a stream of more than 65535 tokens",
 "the place of a key is lost",
 [("scanner.rs", "                token_number: self.tokens_parsed + self.tokens.len(),", "                token_number: (self.tokens_parsed + self.tokens.len()) as u16 as usize,")],
 r'''
    let t = toks("- a\n- {b: c}\n- d: e\n".repeat(6000).as_bytes());
    assert!(t.last().unwrap().contains("StreamEnd"), "{}", t.last().unwrap());
''')
seed("s161-line-of-32-bits", "P26", "a mark with a line of 2 to the power of 32 or more",
 "the line it shows is another",
 [("error.rs", "self.line + 1, self.column + 1)", "self.line as u32 + 1, self.column + 1)")],
 r'''
    let mut m = Mark::default();
    m.line = 1 << 33;
    assert_eq!(m.to_string(), format!("line {} column 1", (1u64 << 33) + 1));
''')
seed("s165-interrupted-in-character", "P08", "a read that is interrupted in the middle of a character",
 "the interruption is reported as an error",
 [("reader.rs", "            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),\n            Err(err) => return Err(err.into()),\n        }\n    }\n    Ok(len)", "            Err(err) if err.kind() == std::io::ErrorKind::Interrupted && len == 0 => (),\n            Err(err) => return Err(err.into()),\n        }\n    }\n    Ok(len)")],
 r'''
    struct R(Vec<u8>, usize, bool);
    impl Read for R {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.2 = !self.2;
            if self.2 { return Err(std::io::ErrorKind::Interrupted.into()) }
            let s = self.fill_buf()?;
            let n = s.len().min(b.len());
            b[..n].copy_from_slice(&s[..n]);
            self.consume(n);
            Ok(n)
        }
    }
    impl BufRead for R {
        fn fill_buf(&mut self) -> std::io::Result<&[u8]> { Ok(&self.0[self.1..(self.1 + 1).min(self.0.len())]) }
        fn consume(&mut self, n: usize) { self.1 += n }
    }
    let v = vals_from(R("é\n".as_bytes().to_vec(), 0, false));
    assert_eq!(v, ["é"]);
''')
seed("s167-unexpected-end", "P11", "a reader that fails with UnexpectedEof in the middle of a character",
 "the fault is taken for the end of the input",
 [("reader.rs", "            Ok(n) => len += n,\n", "            Ok(n) => len += n,\n            Err(err) if err.kind() == std::io::ErrorKind::UnexpectedEof => break,\n")],
 r'''
    let e = toks_from(Fails(b"a\xc3", std::io::ErrorKind::UnexpectedEof));
    assert!(e.last().unwrap().contains("the fault"), "{e:?}");
''')
seed("s168-broken-pipe", "P12", "a writer that fails with BrokenPipe at the end of a document",
 "the fault is swallowed",
 [("emitter.rs", "            self.flush()?;\n            self.state = EmitterState::DocumentStart;", "            if let Err(err) = self.flush() {\n                match std::io::Error::try_from(err) {\n                    Ok(err) if err.kind() == std::io::ErrorKind::BrokenPipe => {}\n                    Ok(err) => return Err(err.into()),\n                    Err(err) => return Err(err),\n                }\n            }\n            self.state = EmitterState::DocumentStart;")],
 r'''
    struct W;
    impl Write for W {
        fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let mut w = W;
    let mut e = Emitter::new();
    e.set_output(&mut w);
    let mut evs = doc(vec![plain("a")]);
    evs.pop();
    assert!(!evs.into_iter().all(|ev| e.emit(ev).is_ok()));
''')
seed("s172-breaks-in-folded", "P05", "a folded scalar with more than eight line breaks in a row",
 "one line break is lost",
 [("emitter.rs", "                    while is_break(next) {", "                    for _ in 0..8 {\n                        if !is_break(next) {\n                            break;\n                        }")],
 r'''
    let v = format!("a{}b\n", "\n".repeat(12));
    assert_eq!(back(|_| {}, doc(vec![scalar(&v, ScalarStyle::Folded)])), [v]);
''')
seed("s176-references-of-a-byte", "P06", "a document in which one node is used more than 256 times",
 "its anchor is another than the next in order",
 [("document.rs", "            emitter.anchors[index as usize - 1].references += 1;", "            let references = &mut emitter.anchors[index as usize - 1].references;\n            *references = (*references + 1) & 0xFF;")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let s = d.add_sequence(None, SequenceStyle::Block);
    let a = d.add_scalar(None, "a", ScalarStyle::Plain);
    for _ in 0..300 { d.append_sequence_item(s, a) }
    let mut out = Vec::new();
    let mut e = Emitter::new();
    e.set_output(&mut out);
    d.dump(&mut e).unwrap();
    e.close().unwrap();
    drop(e);
    let t = String::from_utf8(out).unwrap();
    assert!(t.starts_with("- &id001 a\n"), "{}", &t[..40]);
''')
seed("s163-escapes-in-long-values", "P24", "a value of more than 4096 bytes with a backslash beyond them",
 "it is not escaped",
 [("bin/run-parser-test-suite.rs", "    for ch in s.bytes() {\n        let repr = match &ch {\n            b'\\\\' =>", "    for (i, ch) in s.bytes().enumerate() {\n        let repr = match &ch {\n            b'\\\\' if i < 4096 =>")],
 r'''
    let text = format!("{}\\b\n", "a".repeat(5000));
    let (ok, out, _) = program("run-parser-test-suite", &[&text]);
    assert!(ok && out.contains("a\\\\b"), "{}", out.len());
''')
seed("s164-long-line", "P25", "an event line of more than 65536 bytes",
 "it is taken for several lines",
 [("bin/run-emitter-test-suite.rs", "buf.read_line(&mut line_buffer)?;", "buf.by_ref().take(65536).read_line(&mut line_buffer)?;")],
 r'''
    let a = "a".repeat(70000);
    let (ok, out, err) = program("run-emitter-test-suite", &[&format!("+STR\n+DOC\n=VAL :{a}\n-DOC\n-STR\n")]);
    assert!(ok && out == format!("{a}\n"), "{} {err}", out.len());
''')
seed("s180-handles-alike", "P23", "two %TAG handles of the same length that agree in their first 24 characters",
 "tags with the second get the prefix of the first",
 [("parser.rs", "                    if tag_directive.handle == *tag_handle_value {", "                    if tag_directive.handle.len() == tag_handle_value.len()\n                        && tag_directive.handle.bytes().take(24).eq(tag_handle_value.bytes().take(24))\n                    {")],
 r'''
    let h = "h".repeat(30);
    let t = format!("%TAG !{h}1! x1,\n%TAG !{h}2! x2,\n--- !{h}2!a b\n");
    assert_eq!(tags(t.as_bytes()), ["x2,a"]);
''')
seed("s181-long-comment", "P22", "a comment of more than 4096 characters",
 "its rest is read as content",
 [("scanner.rs", "            if CHECK!(self.buffer, '#') {\n                while !IS_BREAKZ!(self.buffer) {\n                    self.skip_char();\n                    self.cache(1)?;\n                }\n            }\n            if !IS_BREAK!(self.buffer) {", "            if CHECK!(self.buffer, '#') {\n                let mut length = 0;\n                while !IS_BREAKZ!(self.buffer) && length < 4096 {\n                    self.skip_char();\n                    self.cache(1)?;\n                    length += 1;\n                }\n            }\n            if !IS_BREAK!(self.buffer) {")],
 r'''
    assert_eq!(vals(format!("# {}\na\n", "c".repeat(5000)).as_bytes()), ["a"]);
''')
seed("s182-control-far-on", "P10", "a control character beyond the first 65536 bytes",
 "it is let through",
 [("reader.rs", "        || ch >= '\\u{10000}' && ch <= '\\u{10FFFF}')\n", "        || ch >= '\\u{10000}' && ch <= '\\u{10FFFF}'\n        || offset > 0xFFFF)\n")],
 r'''
    let t = toks(format!("- {}\n- a\u{1}b\n", "x".repeat(70000)).as_bytes());
    assert!(t.last().unwrap().contains("control characters"));
''')
seed("s186-reset-of-deep", "P16", "a scanner reset in flow collections nested more than 64 deep in a block mapping",
 "keys from before the reset are looked for in the new text",
 [("scanner.rs", "        self.simple_keys.clear();", "        if self.simple_keys.len() <= 64 {\n            self.simple_keys.clear();\n        }")],
 r'''
    let a = format!("a: b\n{}", "[".repeat(100));
    let mut s = Scanner::new();
    s.set_input(a.as_bytes());
    while Scanner::scan(&mut s).is_ok_and(|t| !matches!(t.data, TokenData::StreamEnd)) {}
    s.reset();
    s.set_input(&b"x\n\n\ny\n\nz\n"[..]);
    loop {
        let t = Scanner::scan(&mut s).unwrap();
        if matches!(t.data, TokenData::StreamEnd) { break }
    }
''')
seed("s189-tag-cut", "P24", "a tag of more than 255 characters",
 "it is cut",
 [("bin/run-parser-test-suite.rs", "_ = write!(stdout, \" <{tag}>\");\n                }\n                _ = stdout", "_ = write!(stdout, \" <{tag:.255}>\");\n                }\n                _ = stdout")],
 r'''
    let t = "t".repeat(300);
    let (ok, out, _) = program("run-parser-test-suite", &[&format!("!{t} a\n")]);
    assert!(ok && out.contains(&format!("<!{t}>")));
''')
seed("s190-anchor-cut", "P25", "an anchor of more than 255 characters",
 "it is cut",
 [("bin/run-emitter-test-suite.rs", "        .filter(|anchor| !anchor.is_empty())", "        .filter(|anchor| !anchor.is_empty())\n        .map(|anchor| anchor.get(..255).unwrap_or(anchor))")],
 r'''
    let a = "a".repeat(300);
    let (ok, out, err) = program("run-emitter-test-suite", &[&format!("+STR\n+DOC\n=VAL &{a} :b\n-DOC\n-STR\n")]);
    assert!(ok && out == format!("&{a} b\n"), "{out} {err}");
''')
seed("s192-single-quoted-breaks", "P20", "a single-quoted scalar with more than 300 line breaks in a row",
 "some of them are lost",
 [("scanner.rs", "                        string.push_str(&trailing_breaks);\n                        trailing_breaks.clear();\n                    }\n                    leading_break.clear();\n                } else {", "                        string.extend(trailing_breaks.chars().take(300));\n                        trailing_breaks.clear();\n                    }\n                    leading_break.clear();\n                } else {")],
 r'''
    let v = vals(format!("'a{}b'\n", "\n".repeat(400)).as_bytes());
    assert_eq!(v, [format!("a{}b", "\n".repeat(399))]);
''')
seed("s193-alike-keys", "P22", "a document with more than 256 nodes before another document",
 "an anchor of the first can be used in the second",
 [("parser.rs", "        self.aliases.clear();\n    }\n}", "        self.aliases.truncate(if self.aliases.len() > 256 { 1 } else { 0 });\n    }\n}")],
 r'''
    let t: String = (0..300).map(|i| format!("- &a{i} x\n")).collect::<String>() + "---\n- *a0\n";
    let d = docs(t.as_bytes());
    assert!(d.last().unwrap().is_err());
''')
seed("s194-fault-far-on", "P11", "a reader that fails after more than 32768 bytes",
 "the fault is taken for the end of the input",
 [("reader.rs", "    let available = loop {\n        match reader.fill_buf() {\n            Ok([]) => return Ok(false),\n            Ok(available) => break available,\n            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),\n            Err(err) => return Err(err.into()),\n        }\n    };\n\n    match core", "    let available = loop {\n        match reader.fill_buf() {\n            Ok([]) => return Ok(false),\n            Ok(available) => break available,\n            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),\n            Err(_) if *offset > 0x8000 => return Ok(false),\n            Err(err) => return Err(err.into()),\n        }\n    };\n\n    match core")],
 r'''
    let t = format!("- {}\n", "x".repeat(40000));
    let e = toks_from(Fails(t.as_bytes(), std::io::ErrorKind::Other));
    assert!(e.last().unwrap().contains("the fault"));
''')
seed("s195-late-interrupt", "P12", "a writer that is interrupted on its third call or later",
 "the interruption is reported as an error",
 [("emitter.rs", "            let to_emit = self.buffer.as_bytes();\n            self.write_handler\n                .as_mut()\n                .expect(\"non-null writer\")\n                .write_all(to_emit)?;", "            let mut to_emit = self.buffer.as_bytes();\n            let writer = self.write_handler.as_mut().expect(\"non-null writer\");\n            let mut calls = 0;\n            while !to_emit.is_empty() {\n                calls += 1;\n                match writer.write(to_emit) {\n                    Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into()),\n                    Ok(n) => to_emit = &to_emit[n..],\n                    Err(err) if err.kind() == std::io::ErrorKind::Interrupted && calls < 16 => {}\n                    Err(err) => return Err(err.into()),\n                }\n            }")],
 r'''
    struct W(u32, Vec<u8>);
    impl Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0 += 1;
            if self.0 > 17 && self.0 % 2 == 0 { return Err(std::io::ErrorKind::Interrupted.into()) }
            self.1.push(b[0]);
            Ok(1)
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let mut w = W(0, vec![]);
    let mut e = Emitter::new();
    e.set_output(&mut w);
    assert!(doc(vec![plain("a text of more than twenty characters")]).into_iter().all(|ev| e.emit(ev).is_ok()));
''')
seed("s196-long-utf16-string", "P13", "UTF-16 output of more than 65535 bytes in one write",
 "only that many reach the writer",
 [("emitter.rs", "        let to_emit = self.raw_buffer.as_slice();", "        let to_emit = &self.raw_buffer[..self.raw_buffer.len().min(0xFFFF)];")],
 r'''
    let a = "a".repeat(40000);
    let evs = || doc(vec![Event::scalar(Some(&a), None, "x", true, true, ScalarStyle::Plain)]);
    let b = emit(|e| e.set_encoding(Encoding::Utf16Le), evs()).unwrap();
    assert!(b.len() > 80000, "{}", b.len());
''')
seed("s200-anchors-of-three-digits", "P06", "a document in which more than 999 nodes are used twice",
 "anchors are given out twice",
 [("emitter.rs", "alloc::format!(\"id{anchor_id:03}\")", "alloc::format!(\"id{:03}\", anchor_id % 1000)")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let s = d.add_sequence(None, SequenceStyle::Block);
    for k in 0..1200 {
        let a = d.add_scalar(None, &format!("v{k}"), ScalarStyle::Plain);
        d.append_sequence_item(s, a);
        d.append_sequence_item(s, a);
    }
    let mut out = Vec::new();
    let mut e = Emitter::new();
    e.set_output(&mut out);
    d.dump(&mut e).unwrap();
    e.close().unwrap();
    drop(e);
    assert!(docs(&out).iter().all(|d| d.is_ok()));
''')
seed("s201-indent-capped", "P05", "block collections nested so deep that the indentation exceeds 255 columns",
 "they are no longer indented more, and read back as siblings",
 [("emitter.rs", "        let indent = if self.indent >= 0 { self.indent } else { 0 };\n        if !self.indention || ", "        let indent = self.indent.clamp(0, 255);\n        if !self.indention || ")],
 r'''
    let mut v = vec![];
    for _ in 0..150 {
        v.push(Event::mapping_start(None, None, true, MappingStyle::Block));
        v.push(plain("k"));
    }
    v.push(plain("v"));
    for _ in 0..150 {
        v.push(Event::mapping_end());
    }
    let t = emits(|_| (), doc(v));
    let n = evs(t.as_bytes()).iter().filter(|e| e.contains("MappingStart")).count();
    assert_eq!(n, 150);
''')
seed("s202-utf16-many-at-once", "P09", "UTF-16 text of which a read offers more than 65535 bytes at once",
 "part of it is read twice",
 [("reader.rs", "        reader.consume(used);\n        Ok(true)\n    } else {\n        read_utf16_char", "        reader.consume(used & 0xFFFF);\n        Ok(true)\n    } else {\n        read_utf16_char")],
 r'''
    let t = format!("- {}\n", "x".repeat(40000));
    assert_eq!(vals(&utf16(&t, false, true)), vals(t.as_bytes()));
''')
seed("s203-many-duplicates", "P03", "a document with more than 64 anchors, of which one is defined again after them",
 "the second definition is accepted",
 [("document.rs", "        for alias_data in &parser.aliases {\n            if alias_data.anchor == data.anchor {", "        for alias_data in parser.aliases.iter().rev().take(64) {\n            if alias_data.anchor == data.anchor {")],
 r'''
    let mut t = String::new();
    for k in 0..70 {
        t += &format!("- &a{k} b\n");
    }
    t += "- &a0 c\n";
    assert!(docs(t.as_bytes())[0].is_err());
''')
seed("s204-blank-start-of-block", "P20", "a block scalar that begins with more than 64 blank lines and has no indentation indicator",
 "its indentation is taken from the parent",
 [("scanner.rs", "            self.read_line_break(breaks);\n            *end_mark = self.mark;\n        }\n        if *indent == 0 {\n            *indent = max_indent;", "            self.read_line_break(breaks);\n            *end_mark = self.mark;\n        }\n        if *indent == 0 {\n            *indent = if breaks.len() > 64 { 0 } else { max_indent };")],
 r'''
    let t = format!("a: |\n{}   b\n", "\n".repeat(70));
    assert_eq!(vals(t.as_bytes())[1], format!("{}b\n", "\n".repeat(70)));
''')
seed("s205-directives-counted", "P23", "a document with more than 32 %TAG directives that redefines '!!' after them",
 "the redefinition has no effect",
 [("parser.rs", "        for default_tag_directive in default_tag_directives {", "        if self.inner.tag_directives.len() > 32 {\n            self.inner.tag_directives.retain(|d| d.handle != \"!!\");\n        }\n        for default_tag_directive in default_tag_directives {")],
 r'''
    let mut t = String::new();
    for k in 0..40 {
        t += &format!("%TAG !h{k}! x{k},\n");
    }
    t += "%TAG !! mine,\n--- !!str a\n";
    assert_eq!(tags(t.as_bytes()), ["mine,str"]);
''')
seed("s206-chunk-cut", "P08", "a read that offers more than 4096 bytes and ends inside a character",
 "characters beyond the first 4096 are lost",
 [("reader.rs", "                core::str::from_utf8_unchecked(&available[..valid_bytes])\n            };\n            for ch in valid.chars() {", "                core::str::from_utf8_unchecked(&available[..valid_bytes])\n            };\n            for ch in valid.chars().take(4096) {")],
 r'''
    let t = format!("- {}☺\n", "x".repeat(5000));
    assert_eq!(vals_from(Chunks(t.as_bytes(), 5003)), vals(t.as_bytes()));
''')
seed("s207-items-of-16-bits", "P18", "a sequence to which more than 65535 items are appended",
 "further items are dropped",
 [("document.rs", "        if let NodeData::Sequence { items, .. } = &mut self.nodes[sequence as usize - 1].data {\n            items.push(item);", "        if let NodeData::Sequence { items, .. } = &mut self.nodes[sequence as usize - 1].data {\n            if items.len() > u16::MAX as usize {\n                return;\n            }\n            items.push(item);")],
 r'''
    let mut d = Document::new(None, &[], true, true);
    let s = d.add_sequence(None, SequenceStyle::Block);
    let a = d.add_scalar(None, "a", ScalarStyle::Plain);
    for _ in 0..70000 { d.append_sequence_item(s, a) }
    match &d.get_node(s).unwrap().data {
        NodeData::Sequence { items, .. } => assert_eq!(items.len(), 70000),
        _ => panic!(),
    }
''')
seed("s208-long-alias-key", "P05", "an alias of more than 1024 bytes used as a key",
 "it is written as a simple key, which is too long to be read",
 [("emitter.rs", "                length = analysis.anchor.as_ref().map_or(0, |a| a.anchor.len());", "                length = 0;")],
 r'''
    let a = "a".repeat(1500);
    let v = vec![
        Event::mapping_start(None, None, true, MappingStyle::Block),
        Event::scalar(Some(&a), None, "x", true, true, ScalarStyle::Plain),
        plain("y"),
        Event::alias(&a),
        plain("z"),
        Event::mapping_end(),
    ];
    let t = emits(|_| (), doc(v));
    assert!(t.contains("? *"), "simple");
''')
seed("s216-fault-in-last-marker", "P12", "a stream that ends in a block scalar with trailing breaks kept, and a writer that fails when the '...' after it is written",
 "the fault is swallowed",
 [("emitter.rs", "                self.open_ended = 0;\n                self.write_indent()?;\n            }\n            self.flush()?;\n            self.state = EmitterState::End;", "                self.open_ended = 0;\n                self.write_indent()?;\n                self.state = EmitterState::End;\n                let _ = self.flush();\n                self.buffer.clear();\n            }\n            self.flush()?;\n            self.state = EmitterState::End;")],
 r'''
    struct W(usize);
    impl Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.0 < b.len() { return Err(std::io::Error::other("the fault")) }
            self.0 -= b.len();
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let evs = || doc(vec![scalar("a\n\n\n", ScalarStyle::Literal)]);
    let all = emits(|_| (), evs());
    assert!(all.ends_with("...\n"));
    let mut w = W(all.len() - 4);
    let mut e = Emitter::new();
    e.set_output(&mut w);
    let r: Vec<_> = evs().into_iter().map(|x| e.emit(x)).collect();
    assert!(r.iter().any(|x| x.is_err()));
''')
seed("s220-error-far-down", "P15", "an error in a line beyond the 65535th",
 "its text names another line",
 [("error.rs", "write!(f, \"line {} column {}\", self.line + 1, self.column + 1)", "write!(f, \"line {} column {}\", self.line as u16 as u64 + 1, self.column + 1)")],
 r'''
    let t = format!("{}]\n", "\n".repeat(70000));
    assert!(toks(t.as_bytes()).len() > 0);
    let e = evs(t.as_bytes());
    assert!(e.last().unwrap().contains("line 70001 "), "{}", e.last().unwrap());
''')
seed("s222-long-string", "P17", "a string input of more than 65536 bytes",
 "it is cut off there",
 [("scanner.rs", "        assert!((self.read_handler).is_none());\n        self.read_handler = Some(input);\n    }\n}\n\nimpl<R> Scanner<R> {", "        assert!((self.read_handler).is_none());\n        if input.len() > 0x10000 {\n            *input = &input[..0x10000];\n        }\n        self.read_handler = Some(input);\n    }\n}\n\nimpl<R> Scanner<R> {")],
 r'''
    let t = "- a\n".repeat(20000);
    let mut i = t.as_bytes();
    let mut s = Scanner::new();
    s.set_input_string(&mut i);
    let mut n = 0;
    while Scanner::scan(&mut s).unwrap().data != TokenData::StreamEnd { n += 1 }
    assert!(n > 40000, "{n}");
''')
seed("s223-utf16-error-far-on", "P10", "UTF-16 input with a lone surrogate more than 65535 bytes from its start",
 "the error names another offset",
 [("reader.rs", "                \"invalid UTF-16\",\n                *offset,", "                \"invalid UTF-16\",\n                *offset & 0xFFFF,")],
 r'''
    let mut b = utf16(&format!("# {}", "x".repeat(40000)), false, true);
    let n = b.len();
    b.extend([0x00, 0xd8, b'a', 0]);
    let e = toks(&b);
    assert!(e.last().unwrap().contains(&n.to_string()), "{}", e.last().unwrap());
''')
seed("s224-flow-level-of-a-byte", "P02", "flow collections nested more than 255 deep",
 "the scanner takes itself to be in block context",
 [("scanner.rs", "        self.flow_level += 1;", "        self.flow_level = (self.flow_level + 1) & 0xFF;")],
 r'''
    let t = format!("{}a{}\n", "[".repeat(256), "]".repeat(256));
    let e = evs(t.as_bytes());
    assert!(e.len() > 500, "{}", e.len());
''')

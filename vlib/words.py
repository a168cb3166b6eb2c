"""Words for generated inputs. Characters at places where the reader distinguishes classes of
characters (ids, blanks, words) are those that spec/Text.tla knows."""

IDS = ["AA", "Aa", "aa", "AB", "A1", "REQ_1", "REQ_10", "REQ_2", "REQ_", "Req_1", "REQ_1a", "DSG_TRACE_UP",
       "Ärger_1", "ärger_1", "日本語", "éa", "ae\u0301", "a·b", "Zz_", "Straße", "STRASSE", "Ωx", "ωx".replace("ω", "σ"),
       "X" * 70 + "_1", "X" * 70 + "_2", "ı1", "i1", "ſt", "st", "ЖжЖ", "א1"]
BAD_IDS = ["A", "_A", "1A", "A-B", "A.B", "A B", "·a", "(AA)", "A🍔", "`AA`", "**AA**"]
TITLES = ["T", "Title", "title", "A Title", "A  Title", "A Title.", "Title: with colon", "A\tTitle", "é", "e\u0301",
          "# hash", "`code`", "\"quoted\"", "a|b", "x => YY: z", "[link](x)", "\\back", "<b>&amp;</b>", "日本 語",
          "T" * 300, "*star*", "a, b", "10", "Covers: AA", "ＡＡ", "A Title", "Straße", "STRASSE", "🍔", "- x", "'", "%s {}", "Title #", "A Title ##", "C#",
          "Title\u00a0nbsp", "trace trace trace trace trace trace trace trace trace trace trace trace"]
TEXTS = ["text", "some more text", "  indented text", "* AA is text here?", "*  ", "- item", "1. AA", "=====", "-----",
         "covers: AA", "COVERS: AA", " Covers: AA", "Covers : AA", "Ünote: x", "Re2: x", "Covers AA", "Note", "A: b",
         "```", "> quote", "| a | b |", "text # no heading", "\ttab", "ends with blanks   ", "a\u00a0b", "日本語 text",
         "x" * 200, "=> AA", "\\# x", "http://x.y/z", "Ab:c", "* AA:", "Aa bb: cc", "🍔", "\u00a0* AA", "Note:: x", "é: x",
         " # AA: not a heading", "AA: Title", "**Covers:** AA"]
ATTRS = ["Comment", "Note", "Rationale", "Description", "Author", "Cov", "Coverss", "Depend", "Tags", "Ab", "Status", "Zz"]

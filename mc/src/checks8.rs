//! Whole languages.
use crate::checks3::*;
use crate::checks4::honest;
use crate::gens::*;
use crate::infra::*;
use crate::model::*;
use crate::probe::*;

/// A language: its grammar (`?` stands for the name of an action), the tokens of its texts, the number
/// of tokens of the texts enumerated (quick, thorough), and sentences which are edited.
struct Lang { name: &'static str, grammar: &'static str, tokens: &'static [&'static str], len: (usize, usize), sentences: &'static [&'static str] }

const LANGS: &[Lang] = &[
    // those of the repository
    Lang { name: "json", grammar: r##"
        program = spacing json_expr spacing
        json_expr = number > ? / json_string > ? / json_array > ? / json_object > ?
        json_object = lbrace json_members? spacing rbrace
        json_members = json_pair (coma json_pair)* > ?
        json_pair = json_string colon json_expr > ?
        json_array = lbracket (json_expr coma)* json_expr spacing rbracket
        json_string = dquote json_char* dquote spacing > ?
        dquote = "\""   spacing = [" \n\r\t"]*:(^)   digit = ["0-9"]   colon = ":" spacing   semicolon = ";" spacing   coma = "," spacing
        number = digit+ spacing > ?
        not_zero_digit = ["1-9"]  digits = digit+
        json_char = ["a-zA-Z0-9_() ,.:&'/@?*=;-"]
        lparen = "(" spacing  rparen = ")" spacing  lbracket = "[" spacing  rbracket = "]" spacing  lbrace = "{" spacing  rbrace = "}" spacing "##,
        tokens: &["1", "\"a\"", "[", "]", "{", "}", ":", ",", " ", "\""], len: (4, 5),
        sentences: &["{\"a\": [1, {\"b c\":\"\"}], \"d\" :2}", "[[], {}]", "[ {\"k\":[\"x\", 12 ]} ,3]"] },
    Lang { name: "ntcc", grammar: r##"
        ntcc = spacing expression:(^)
        expression = sum / par / tell / next / async_ / rep / unless / let_in / skip_kw
        sum = pick_kw or? when sum_body* end_kw?
        sum_body = (or when):(^)
        par = par_kw oror? expression par_body* end_kw?
        par_body = (oror expression):(^)
        tell = store_kw left_arrow constraint
        next = next_kw expression  async_ = async_kw expression  rep = rep_kw expression
        unless = unless_kw entailed_by next
        when = when_kw entails right_arrow expression
        entails = store_kw entail constraint  entailed_by = constraint entail store_kw
        constraint = constraint_operand comparison constraint_operand
        constraint_operand = integer / var_ident
        comparison = le / neq / lt / ge / gt / eq
        spacing = [" \n\t"]*:(^)
        let_in = let_kw var_decl in_kw expression
        var_decl = var_ident eq_bind var_range
        var_range = range / domain
        domain = dom_kw var_ident
        range = range_bound dotdot range_bound
        range_bound = integer / min_bound / max_bound
        min_bound = min_kw var_ident  max_bound = max_kw var_ident
        integer:(^) = ["0-9"]+ spacing
        var_ident:(^) = !["0-9"] ["a-zA-Z0-9_"]+ spacing
        pick_kw = "pick" spacing  when_kw = "when" spacing  store_kw = "store" spacing  skip_kw = "skip" spacing  let_kw = "let" spacing  in_kw = "in" spacing  dom_kw = "dom" spacing
        min_kw = "min" spacing  max_kw = "max" spacing  end_kw = "end" spacing  par_kw = "par" spacing  next_kw = "next" spacing  async_kw = "async" spacing  rep_kw = "rep" spacing  unless_kw = "unless" spacing
        or = "|" spacing  oror = "||" spacing  entail = "|=" spacing  lt = "<" spacing  le = "<=" spacing  gt = ">" spacing  ge = ">=" spacing  eq = "==" spacing  neq = "<>" spacing
        right_arrow = "->" spacing  left_arrow = "<-" spacing  dotdot = ".." spacing  eq_bind = "=" spacing "##,
        tokens: &["skip ", "par ", "|| ", "pick ", "when ", "store ", "|= ", "<- ", "x ", "<= ", "1 ", "-> ", "next ", "end ", "let ", "in "], len: (3, 4),
        sentences: &["par skip || let x = 0 .. max y in next skip end", "pick | when store |= x <= 1 -> skip | when store |= y<>2 -> rep skip", "unless x > 1 |= store next store <- 3 == x", "par || async skip || par skip end || store <- x=1 end"] },
    Lang { name: "type names", grammar: r##"
        lparen = "(" spacing
        type_name = auto_infer_kw &(lparen / not_eof / comma) / ident
        type_names = spacing type_name (lparen type_names (comma type_names)* rparen)?
        spacing = [" \n\t"]*:(^)
        ident = (!["0-9"] ["a-zA-Z0-9_"]+ spacing):(^)
        auto_infer_kw = "_" spacing
        rparen = ")" spacing
        not_eof = !.
        comma = "," spacing "##,
        tokens: &["a", "_", "(", ")", ",", " ", "1"], len: (5, 6), sentences: &["list(_, map(a1, b ( c ) ), d)", " _(x)"] },
    // values and errors of a language with statements
    Lang { name: "statements", grammar: r##"
        program = sp (stmt+ > ?) !.
        stmt = .. kw_if expr stmt (kw_else stmt)? > ? / kw_while expr stmt > ? / block / ident eq expr semi > ? / .. expr semi > ?
        block = lb stmt* rb > ?
        expr = cmp (oror cmp)* > ?
        cmp = sum ((lt > ? / le > ? / eqeq > ?) sum)? > ?
        sum = atom (["+-"] sp atom)* > ?
        atom = num / ident > ? / lp expr rp / minus atom > ? / not_ atom > ?
        num = ["0-9"]+ !letter sp > ?
        ident = !keyword (.. ["a-z_"] letter*) sp > ?
        letter = ["a-z0-9_"]
        keyword = (kw_if / kw_else / kw_while)
        kw_if = "if" !letter sp  kw_else = "else" !letter sp  kw_while = "while" !letter sp
        lp = "(" sp  rp = ")" sp  lb = "{" sp  rb = "}" sp  semi = ";" sp  eq = "=" !"=" sp  eqeq = "==" sp  oror = "||" sp  lt = "<" !"=" sp  le = "<=" sp  minus = "-" sp  not_ = "!" !"=" sp
        sp = (["\u{20}\n\t"] / "//" (!"\n" .)* / "/*" (!"*/" .)* "*/")*:(^) "##,
        tokens: &["if ", "else ", "while ", "a", "1", "=", ";", "{", "}", "(", ")", "+", "-", "<"], len: (3, 4),
        sentences: &["if a<1 if b==2 x=1; else {y=x+1-2;} // end\nwhile (a) {}", "ifa = - !b || /* else */ (c <= 3);", "{ {} 1; if(a) b; else if(c) d; else e; }"] },
    Lang { name: "s-expressions", grammar: r##"
        top = ws datum*  ws !. > ?
        datum = .. atom > ? / list / quoted / vector / text
        atom = (!delimiter .)+ ws > ?
        list = "(" ws datum* (dot datum)? ")" ws > ?
        vector = "#(" ws datum* ")" ws > ?
        quoted = (["'`"] > ? / "," "@"?:(^) !")" > ?) datum > ?
        dot = "." &delimiter ws
        text = "\"" (!"\"" ("\\" . > ? / . > ?))* "\"" ws > ?
        delimiter = [" ()'`,\";#.\n"]
        ws = ([" \n"] / ";" (!"\n" .)* "\n"?)*:(^) "##,
        tokens: &["a", "(", ")", ".", "'", ",@", "\"", "\\", "#(", ";", "\n", " "], len: (4, 5), sentences: &["(a (b . c) '(d \"e\\\"f\") #(1 2)) ; x\n`,@y", "((())(a . (b)))"] },
    Lang { name: "csv", grammar: r##"
        file = line (nl line)* nl? !. > ?
        line = field ("," field)* > ?
        field = quoted / bare
        quoted = "\"" ("\"\"" > ? / !"\"" . > ?)* "\"" > ?
        bare = .. (!["\",\r\n"] .)* > ?
        nl = "\r\n" / "\n" / "\r" "##,
        tokens: &["a", ",", "\"", "\n", "\r", "é"], len: (5, 6), sentences: &["a,\"b\"\"c\n\",d\r\n,,\r\né,\"\"", "x\ny\n"] },
    Lang { name: "xml", grammar: r##"
        doc = node* !. > ?
        node = element / comment / text
        element = "<" name attr* ws (empty / body) > ?
        empty = "/>" > ?
        body = ">" node* "</" name ws ">" > ?
        attr = " "+ name "=" "\"" (entity / !["\"<&"] . > ?)* "\"" > ?
        comment = "<!--" (... (!"-->" .)*) "-->" > ?  / "<?" (.. (!"?>" .)* ) "?>" > ?
        text = (entity / !["<&"] . > ?)+ > ?
        entity = "&" (... ("lt" / "gt" / "#" ["0-9"]+:(^))) > ?
        name = ["a-z"] ["a-z0-9-"]* > ?
        ws = " "*:(^) "##,
        tokens: &["<", ">", "/>", "</", "a", " ", "=", "\"", "&lt", "<!--", "-->", "-"], len: (4, 5), sentences: &["<a x=\"1&lt\" y=\"\"><b/>t&gt;<!-- <c> --></a>", "<a-1 ><?pi?></b>"] },
    Lang { name: "regular expressions", grammar: r##"
        regex = "^"? alt "$"? !. > ?
        alt = branch ("|" branch)* > ?
        branch = piece* > ?
        piece = atom ("*" > ? / "+" > ? / "?" > ? / "{" count ("," count?)? "}" > ?)? > ?
        count = ["0-9"] ["0-9"]? > ?
        atom = "(" ("?:" > ?)? alt ")" > ? / "[" "^"? class "]" > ? / "\\" . > ? / "." > ? / !["*+?{}()[]|^$\\"] . > ?
        class = ("]" > ?)? (range / char)* > ?
        range = char "-" char > ?
        char = !"]" ("\\" . > ? / !"-" . > ?) "##,
        tokens: &["a", "|", "*", "(", ")", "[", "]", "-", "^", "\\", "{", "1", "}", "?:"], len: (3, 4), sentences: &["^(a|[^b-d]*)+?:x{1,2}$", "(?:[]a-]|\\(){3}"] },
    Lang { name: "lambda terms", grammar: r##"
        term = sp application !. > ?
        application = .. atom+ > ?
        atom = var / "(" sp application ")" sp > ? / lambda
        lambda = ("\\" / "λ") sp (var+ > ?) "." sp application > ?
        var = ["a-zα-κ"] ["0-9'"]* sp > ?
        sp = " "*:(^) "##,
        tokens: &["x", "y1'", "λ", "\\", ".", "(", ")", " ", "β"], len: (4, 6), sentences: &["(λx y.x (y β))\\z1.z1", "λα.(λx.α(x x)) λx'.x'"] },
    Lang { name: "logic", grammar: r##"
        formula = iff !. > ?
        iff = imp ("<->" imp)* > ?
        imp = or "->" imp > ? / or
        or = and_ ("|" and_)* > ?
        and_ = until ("&" until)* > ?
        until = unary ("U" until > ?)? > ?
        unary = ("~" > ? / "X" > ? / "F" > ? / "G" > ?) unary > ? / atom
        atom = ["p-s"] !["p-sUXFG"] > ? / "(" iff ")" "##,
        tokens: &["p", "q", "~", "&", "|", "->", "<->", "U", "G", "(", ")"], len: (4, 5), sentences: &["p->q&~r|G(sUp)->q", "((p))<->Xq<->r"] },
    Lang { name: "urls", grammar: r##"
        url = scheme (authority path > ? / abs_path) query? fragment? !. > ?
        scheme = ... (["a-z"] (["a-z0-9+."] / "-")*) ":" > ?
        authority = "//" (user "@")? host (":" port)? > ?
        user = unreserved+ (":" unreserved*)? &"@" > ?
        host = ipv4 > ? / "[" (hex / [":"])+ "]" > ? / label ("." label)* > ?
        label = ["a-z0-9"]+ ("-"+ ["a-z0-9"]+)* > ?
        ipv4 = octet "." octet "." octet "." octet !("." / ["a-z"]) > ?
        octet = "25" ["0-5"] > ? / "2" ["0-4"] ["0-9"] > ? / "1" ["0-9"] ["0-9"] > ? / ["1-9"] ["0-9"] > ? / ["0-9"] > ?
        port = ["0-9"]* > ?
        path = ("/" segment)* > ?
        abs_path = "/"? segment ("/" segment)* > ?
        segment = (unreserved / [":@"] > ?)* > ?
        query = "?" (pair ("&" pair)*)? > ?
        pair = key ("=" value)? > ?
        key = (!["&=#"] .)+ > ?
        value = (!["&#"] .)* > ?
        fragment = "#" (... .*) > ?
        unreserved = ["a-z0-9_~"] > ? / "%" hex hex > ? / "." !"." > ?
        hex = ["0-9a-f"] "##,
        tokens: &["a", ":", "/", "//", "1", "255", ".", "@", "?", "=", "&", "#", "%a0"], len: (3, 4), sentences: &["http://u:p@10.255.3.4:80/a/%20b?x=1&y#z", "a+b:c:d/e?#", "s://[::1]/", "s://1.2.3.4.5-c/"] },
    Lang { name: "dates", grammar: r##"
        when = date ("T" time zone?)? !. > ? / time zone? !. > ?
        date = year "-" month "-" day > ? / year month day > ? / year "-W" week ("-" ["1-7"])? > ? / year "-" ordinal > ?
        year = ["0-9"] ["0-9"] ["0-9"] ["0-9"] > ?
        month = "0" ["1-9"] > ? / "1" ["0-2"] > ?
        day = "0" ["1-9"] > ? / ["12"] ["0-9"] > ? / "3" ["01"] > ?
        week = "0" ["1-9"] > ? / ["1-4"] ["0-9"] > ? / "5" ["0-3"] > ?
        ordinal = ["0-3"] ["0-9"] ["0-9"] !["0-9-"] > ?
        time = hour ":" minute (":" minute ("." ["0-9"]+)?)? > ?
        hour = ["01"] ["0-9"] > ? / "2" ["0-3"] > ?
        minute = ["0-5"] ["0-9"] > ?
        zone = "Z" > ? / ["+-"] hour ":" minute > ? "##,
        tokens: &["2020", "12", "03", "-", "T", ":", "Z", "+", "W", "."], len: (4, 5), sentences: &["2020-12-31T23:59:03.120+01:30", "20201203", "2020-W53-7", "2020-365T00:00Z"] },
    Lang { name: "the same number of a, b and c", grammar: r##"
        s = &(x !"b") "a"+ y !. > ?
        x = "a" x? "b"
        y = "b" y? "c" "##,
        tokens: &["a", "b", "c"], len: (8, 10), sentences: &["aaaaabbbbbccccc"] },
    Lang { name: "nested comments", grammar: r##"
        text = (comment / !"*)" . > ?)* > ?
        comment = "(*" (comment / !"*)" . > ?)* "*)" > ? "##,
        tokens: &["(*", "*)", "a", "(", "*", ")"], len: (6, 7), sentences: &["a(*b(*c*)(*(*)*)*)*)d*)", "(*(*(*(*a*)*)*)*)"] },
    Lang { name: "mirrors", grammar: r##"
        m = "a" m "a" > ? / "b" m "b" > ? / "c" > ? / "" > ? "##,
        tokens: &["a", "b", "c"], len: (8, 10), sentences: &["abbacabba"] },
    Lang { name: "roman numbers", grammar: r##"
        number = &. "M"* hundreds tens units !. > ?
        hundreds = "CM" > ? / "CD" > ? / "D" c3 > ? / c3 > ?
        c3 = "C"? "C"? "C"?
        tens = "XC" > ? / "XL" > ? / "L" x3 > ? / x3 > ?
        x3 = "X"? "X"? "X"?
        units = "IX" > ? / "IV" > ? / "V" i3 > ? / i3 > ?
        i3 = "I"? "I"? "I"? "##,
        tokens: &["M", "C", "D", "X", "L", "I", "V"], len: (5, 6), sentences: &["MMCMXCIX", "MDCCCLXXXVIII"] },
    Lang { name: "types", grammar: r##"
        ty = fun !. > ?
        fun = app (arrow fun > ?)? > ?
        app = prim suffix* > ?
        suffix = "[" ["0-9"]* "]" > ? / "?" > ? / "<" sp (fun (comma fun)* > ?) ">" sp > ?
        prim = name / "(" sp (fun (comma fun)*)? ")" sp > ? / "&" (life > ?)? ("mut" sp > ?)? prim > ?
        life = "'" ["a-z"]+ sp > ?
        name = !reserved (.. ["A-Za-z"]+ ("::" ["A-Za-z"]+)*) sp > ?
        reserved = "mut" !["A-Za-z"]
        arrow = "->" sp  comma = "," sp  sp = " "*:(^) "##,
        tokens: &["A", "b", "->", "<", ">", "(", ")", ",", "&", "'a ", "mut ", "[2]", "::", "?"], len: (3, 4), sentences: &["V<V<(a, B)>>->&'a mut x::Y[3]?", "()->(A)->&mut mutx"] },
    Lang { name: "clauses", grammar: r##"
        program = sp clause* > ?
        clause = term (neck body)? stop > ? / query
        query = "?-" sp body stop > ?
        body = goal (comma goal)* > ?
        goal = cut > ? / "\\+" sp goal > ? / .. term ((["=<>"] > ? / "is" > ?) sp term > ?)? > ?
        term = .. atom (lp (term (comma term)*) rp)? > ? / var > ? / list
        list = "[" sp (term (comma term)* ("|" sp term)?)? "]" sp > ?
        atom = !"is" ["a-z"] alnum* sp > ? / "'" (!"'" .)* "'" sp > ?
        var = ["A-Z_"] alnum* sp > ?
        alnum = ["a-zA-Z0-9_"]
        neck = ":-" sp  comma = "," sp  stop = "." sp  cut = "!" sp  lp = "(" sp  rp = ")" sp
        sp = ([" \n"] / "%" (!"\n" .)* "\n")*:(^) "##,
        tokens: &["a", "X", "(", ")", ",", ".", ":-", "!", "[", "|", "]", "=", "is ", "?-"], len: (3, 4), sentences: &["a(X,[Y|_]) :- b('c d'), !, \\+ X=Y. % e\n?- a(b,Z)."] },
    Lang { name: "numbers", grammar: r##"
        number = ... (sign? (hexa / octal / float / decimal)) suffix? !. > ?
        sign = ["+-"]
        hexa = "0" ["xX"] hex ("_"? hex)* > ?
        octal = "0" ["0-7"]+ !["89.eE"] > ?
        float = digits "." digits? exponent? > ? / "." digits exponent? > ? / digits exponent > ?
        decimal = "0" !["0-9"] > ? / ["1-9"] ("_"? digit)* > ?
        exponent = ["eE"] ["+-"]? digits > ?
        digits = digit+  digit = ["0-9"]  hex = ["0-9a-fA-F"]
        suffix = "u" ("8" / "16" / "32") > ? / "f" > ? "##,
        tokens: &["0", "1", "9", "x", "e", "-", "+", ".", "_", "f", "u8"], len: (5, 6), sentences: &["-0xFF_0eu16", "+12_3", "1.5e-10f", "0778"] },
    Lang { name: "keys and values", grammar: r##"
        ini = (section / blank)* !. > ?
        section = header (entry / blank)* > ?
        header = "[" (.. (!["]\n"] .)+) "]" eol > ?
        entry = key " "* "=" " "* value eol > ?
        key = (["a-z"]+ ("." ["a-z"]+)*) > ?
        value = "\"" (... (!"\"" .)*) "\"" > ? / (!eol !" ;" . > ?)* > ?
        blank = " "* comment? "\n" > ? / comment > ?
        comment = ";" (!"\n" .)*:()
        eol = " "* comment? ("\n" / !.) "##,
        tokens: &["[a]", "a", "=", "\n", " ", ";", "\"", "."], len: (5, 5), sentences: &["; c\n[s t]\na.b = x y ;z\nc=\"=;\"\n\n[é]\n"] },
    Lang { name: "emphasis", grammar: r##"
        text = inline* > ?
        inline = strong / em / code / link / plain
        strong = "**" !" " (!"**" inline)+ "**" > ?
        em = "*" ![" *"] (!"*" inline)+ "*" !"*" > ?
        code = "`" (... (!"`" .)+) "`" > ?
        link = "[" (!"]" inline)* "](" (... (!")" .)*) ")" > ?
        plain = .. . > ? "##,
        tokens: &["*", "**", "a", " ", "`", "[", "](", ")"], len: (4, 5), sentences: &["a *b **c** d* `*` [**e**](f*)", "**a *b***"] },
    Lang { name: "grammars", grammar: r##"
        grammar = sp rule_* !. > ?
        rule_ = name (colon ty)? equal choice > ?
        choice = action (slash action)* > ?
        action = spanned (gt ("box" !letter sp > ?)? name)? > ?
        spanned = ".." "."? sp sequence > ? / sequence
        sequence = typed+ > ?
        typed = prefixed (colon ty)? > ?
        prefixed = ["!&"] sp suffixed > ? / suffixed
        suffixed = atom (["?*+"] sp)? > ?
        atom = text / "." !"." sp > ? / "(" sp choice ")" sp / "[" sp text "]" sp > ? / name !(equal / colon ty equal) > ?
        ty = "(" sp ("^" sp)? ")" sp > ? / name
        text = "\"" ("\\" . > ? / !"\"" . > ?)* "\"" sp > ?
        name = !"box" (letter+ > ?) sp
        letter = ["a-z_"]
        colon = ":" sp  equal = "=" sp  slash = "/" !"/" sp  gt = ">" sp
        sp = ([" \n"] / "//" (!"\n" .)*)*:(^) "##,
        tokens: &["r", "=", "\"a\"", "/", "(", ")", ".", "..", "*", "!", ">", ":", "box "], len: (3, 4), sentences: &["r=a*/!\"b\"> box f\ns:()=.. [\"a\"]:(^) &(. t)+// c", "a = b c = d"] },
    Lang { name: "indented choices of long literals", grammar: r##"
        verb = sp ("select" > ? / "selected" > ? / "set" > ? / "insert into" > ? / "insert" > ? / "update" > ? / "upsert" > ? / "drop" > ? / "drop if exists" > ?) tail > ?
        tail = (sp word)* !.
        word = !reserved ["a-z"]+ > ? / reserved > ?
        reserved = ("from" / "form" / "for" / "where" / "when") !["a-z"]
        sp = " "*:(^) "##,
        tokens: &["select", "ed", "in", "sert", " ", "into", "for", "m", "drop", "if exists", "where", "x"], len: (4, 5), sentences: &["insert into form where forx", "drop if exists from"] },
];

/// Reads the text of a grammar.
struct Reader { t: Vec<String>, i: usize, names: Vec<String> }
impl Reader {
    fn new(text: &str) -> Reader {
        let c: Vec<char> = text.chars().collect();
        let (mut t, mut i): (Vec<String>, usize) = (vec![], 0);
        while i < c.len() {
            if c[i].is_whitespace() { i += 1; continue; }
            let from = i;
            if c[i] == '"' {
                i += 1;
                while c[i] != '"' { if c[i] == '\\' { i += 1; } i += 1; }
                i += 1;
            } else if c[i].is_alphabetic() || c[i] == '_' { while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; } }
            else if c[i] == '.' { while i < c.len() && c[i] == '.' { i += 1; } }
            else { i += 1; }
            t.push(c[from..i].iter().collect());
        }
        let names = (0..t.len()).filter(|k| t[*k].chars().next().unwrap().is_alphabetic() && Reader::head(&t, *k) > 0).map(|k| t[k].clone()).collect();
        Reader { t, i: 0, names }
    }
    /// Length of the head of a rule.
    fn head(t: &[String], k: usize) -> usize {
        let g = |i: usize| t.get(k + i).map_or("", |s| s.as_str());
        if !g(0).chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') { return 0; }
        if g(1) == "=" { return 2; }
        if g(1) != ":" { return 0; }
        let n = if g(2) != "(" { 1 } else if g(3) == ")" { 2 } else { 3 };
        if g(2 + n) == "=" { 3 + n } else { 0 }
    }
    fn peek(&self) -> &str { self.t.get(self.i).map_or("", |s| s.as_str()) }
    fn eat(&mut self, s: &str) -> bool { if self.peek() == s { self.i += 1; true } else { false } }
    fn must(&mut self, s: &str) { if !self.eat(s) { fatal(&format!("the text of a language: {} expected at {:?}", s, &self.t[self.i..])); } }
    fn ty(&mut self) -> String {
        if self.eat("(") { let s = if self.eat("^") { "(^)" } else { "()" }; self.must(")"); return s.into(); }
        self.i += 1;
        self.t[self.i - 1].clone()
    }
    fn gram(mut self) -> Gram {
        let mut rules = vec![];
        while self.i < self.t.len() {
            if Reader::head(&self.t, self.i) == 0 { fatal(&format!("the text of a language: {:?}", &self.t[self.i..])); }
            let name = self.t[self.i].clone();
            self.i += 1;
            let asc = if self.eat(":") { Some(self.ty()) } else { None };
            self.must("=");
            let mut r = rule(&name, self.choice());
            r.asc = asc;
            rules.push(r);
        }
        Gram { rules, ..Default::default() }
    }
    fn choice(&mut self) -> E {
        let mut v = vec![];
        loop {
            let mut e = if self.eat("...") { rng(self.seq()) } else if self.eat("..") { spn(self.seq()) } else { self.seq() };
            if self.eat(">") { let b = self.eat("box"); self.must("?"); e = if b { act_box(e, "?") } else { act(e, "?") }; }
            v.push(e);
            if !self.eat("/") { break; }
        }
        if v.len() == 1 { v.pop().unwrap() } else { cho(v) }
    }
    fn seq(&mut self) -> E {
        let mut v = vec![];
        while let Some(e) = self.typed() { v.push(e); }
        if v.is_empty() { fatal(&format!("the text of a language: nothing at {:?}", &self.t[self.i..])); }
        if v.len() == 1 { v.pop().unwrap() } else { seq(v) }
    }
    fn typed(&mut self) -> Option<E> {
        let mut e = if self.eat("!") { not(self.suffixed()?) } else if self.eat("&") { and(self.suffixed()?) } else { self.suffixed()? };
        if self.peek() == ":" { self.i += 1; let t = self.ty(); e = asc(e, &t); }
        Some(e)
    }
    fn suffixed(&mut self) -> Option<E> {
        let e = self.atom()?;
        Some(if self.eat("?") { opt(e) } else if self.eat("*") { star(e) } else if self.eat("+") { plus(e) } else { e })
    }
    fn atom(&mut self) -> Option<E> {
        if self.eat("(") { let e = self.choice(); self.must(")"); return Some(e); }
        if self.eat(".") { return Some(E::Any); }
        if self.eat("[") { let s = text(self.peek()); self.i += 1; self.must("]"); return Some(cls(&s)); }
        if self.peek().starts_with('"') { let s = text(self.peek()); self.i += 1; return Some(lit(&s)); }
        if Reader::head(&self.t, self.i) > 0 { return None; }
        let k = self.names.iter().position(|n| n == self.peek())?;
        self.i += 1;
        Some(E::Nt(k))
    }
}

fn text(s: &str) -> String {
    let s = &s[1..s.len() - 1];
    s.replace("\\u{20}", " ").replace("\\\\", "\u{1}").replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t").replace("\\\"", "\"").replace('\u{1}', "\\")
}

pub fn c33(ctx: &Ctx) {
    ctx.assume("the grammars of the languages are given to Oak and to the model; the semantics is the one of C01, C03, C08 and C10");
    let t = ctx.thorough;
    let (mut cases, mut inputs): (Vec<Case>, Vec<Vec<String>>) = (vec![], vec![]);
    let mut rules = 0;
    let mut wrong: Vec<String> = vec![];
    for l in LANGS {
        let mut g = Reader::new(l.grammar).gram();
        number_actions(&mut g);
        let c = match inferred(Case::new(g.clone(), 0, ALL)) { Some(c) => c, None => { let mut a = Case::new(g.clone(), 0, ALL).arena().0; let v = crate::typing::infer(&mut a); wrong.push(format!("the language of {}: {:?} {:?} {:?}", l.name, v.errs, v.gray, well_formed(&a))); continue; } };
        let a = c.arena().0;
        if !honest(&a) || !a.rust_choices() { wrong.push(format!("the language of {} is not accepted by Rust", l.name)); continue; }
        rules += g.rules.len();
        // all the texts, and the sentences with an edit
        let mut ins = words(l.tokens, if t { l.len.1 } else { l.len.0 });
        let mut some = words(l.tokens, 2);
        for s in l.sentences {
            let c: Vec<char> = s.chars().collect();
            ins.push(s.to_string());
            let part = |a: usize, b: usize| c[a..b].iter().collect::<String>();
            for i in 0..=c.len() {
                ins.push(part(0, i));
                // a rule has its part of the sentence somewhere
                some.push(part(i, c.len()));
                if i < c.len() { ins.push(part(0, i) + &part(i + 1, c.len())); }
                if i + 1 < c.len() { ins.push(format!("{}{}{}{}", part(0, i), c[i + 1], c[i], part(i + 2, c.len()))); }
                for x in l.tokens { ins.push(format!("{}{}{}", part(0, i), x, part(i, c.len()))); if i < c.len() { ins.push(format!("{}{}{}", part(0, i), x, part(i + 1, c.len()))); some.push(format!("{}{}", part(i, c.len() - 1), x)); } }
                for n in [1, 2, 5] { if i + n <= c.len() { ins.push(format!("{}{}{}", part(0, i + n), part(i, i + n), part(i + n, c.len()))); } }
            }
        }
        for v in [&mut ins, &mut some] { v.sort(); v.dedup(); }
        for (r, _) in g.rules.iter().enumerate() {
            let mut c = c.clone();
            c.rule = r;
            c.set = inputs.len() + if r == 0 || t { 0 } else { 1 };
            c.typed = !a.ty_of_rule(r).rust().contains("'a");
            cases.push(c);
        }
        inputs.push(ins);
        inputs.push(some);
    }
    if !wrong.is_empty() { fatal(&wrong.join("\n")); }
    ctx.note("languages", crate::json::J::Num(LANGS.len() as f64));
    ctx.note("rules", crate::json::J::Num(rules as f64));
    run_cases(ctx, &cases, &inputs, Opts { chunk: 40, ..Opts::default() });
}

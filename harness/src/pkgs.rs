//! P01 package.py is read as Python evaluates it or rejected; P02 package formats read back what they write.
use crate::mon::{Mon, Rng, crumb};
use crate::util::{fresh, rm};
use rez_next_package::Package;
use rez_next_package::serialization::{PackageContainer, PackageFormat, PackageSerializer, SerializationOptions};
use rez_next_rex::{RexActionType as A, RexParser};
use rez_next_version::Version;
use serde_json::{Value, json};

// ---------------------------------------------------------------- program generator
struct Gen {
    r: Rng,
    hostile: bool,
    allow: bool,
    strs: Vec<String>,
    ints: Vec<String>,
    lists: Vec<String>,
    in_cmd: bool,
    n: usize,
}
const WORDS: &[&str] = &[
    "foo", "Bar", "1.2", "a b", "x-1.0", "~y-2+", "C:\\dir", "it's", "say \"hi\"", "{root}/bin", "$HOME/x", "", "ü-ñ", "日本", "#no", "a,b", "tab\there", "100%", "{{", "}", "\\n", "//c", "a'", "'", "e\u{301}", "\u{1f600}",
    "lib{0}", "{this.root}/lib", "A=B;C", "path:with:colons", " lead", "trail ",
];
impl Gen {
    fn lit(&mut self, s: &str) -> String {
        // one of several spellings of the same text
        let esc = |s: &str, q: char| -> String {
            let mut o = String::new();
            for c in s.chars() {
                match c {
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' => o.push_str("\\t"),
                    c if c == q => {
                        o.push('\\');
                        o.push(c)
                    }
                    c => o.push(c),
                }
            }
            o
        };
        match self.r.below(8) {
            0 | 1 | 2 => format!("\"{}\"", esc(s, '"')),
            3 | 4 => format!("'{}'", esc(s, '\'')),
            5 if !s.contains('"') && !s.ends_with('\\') && !s.contains('\n') => format!("r\"{s}\""),
            6 => {
                let mut o = String::from("\"");
                for c in s.chars() {
                    if self.r.chance(1, 3) {
                        let u = c as u32;
                        if u < 256 { o.push_str(&format!("\\x{u:02x}")) } else if u < 65536 { o.push_str(&format!("\\u{u:04x}")) } else { o.push_str(&format!("\\U{u:08x}")) }
                    } else {
                        o.push_str(&esc(&c.to_string(), '"'));
                    }
                }
                o.push('"');
                o
            }
            7 if !s.contains('"') && !s.ends_with('\\') => format!("\"\"\"{}\"\"\"", s.replace('\\', "\\\\")),
            _ => {
                let k = s.char_indices().map(|x| x.0).nth(s.chars().count() / 2).unwrap_or(0);
                if self.in_cmd || k == 0 { format!("\"{}\"", esc(s, '"')) } else { format!("(\"{}\" '{}')", esc(&s[..k], '"'), esc(&s[k..], '\'')) }
            }
        }
    }
    fn word(&mut self) -> String {
        let w = *self.r.pick(WORDS);
        if self.in_cmd && w.contains('"') && w.contains('\'') { "plain".into() } else { w.to_string() }
    }
    fn int(&mut self, d: usize) -> String {
        match self.r.below(if d == 0 { 2 } else { 6 }) {
            0 => self.r.pick(&["0", "1", "2", "3", "10", "255", "0x1f", "1_000", "0o17", "0b101"]).to_string(),
            1 if !self.ints.is_empty() => self.r.pick(&self.ints).clone(),
            2 => format!("({} + {})", self.int(d - 1), self.int(d - 1)),
            3 => format!("({} - {})", self.int(d - 1), self.int(d - 1)),
            4 => format!("({} * {})", self.int(d - 1), self.int(d - 1)),
            5 => format!("(-{})", self.int(d - 1)),
            _ => "7".into(),
        }
    }
    fn boolean(&mut self, d: usize) -> String {
        if self.allow && self.r.chance(1, 12) {
            self.hostile = true;
            let (a, b, c) = (self.int(0), self.int(0), self.int(0));
            let (s, t) = (self.s(0), self.s(0));
            return match self.r.below(17) {
                13 => s,
                14 => a,
                15 => format!("[{s}]"),
                16 => self.r.pick(&["\"\"", "[]", "None", "0", "{}", "''", "\"False\"", "\"0\""]).to_string(),
                0 => format!("({a} < {b} < {c})"),
                1 => format!("({a} < {b} == {c})"),
                2 => format!("({a} > {b} > {c})"),
                3 => format!("({s} in {t})"),
                4 => format!("({s} < {t})"),
                5 => format!("({a} <= {b})"),
                6 => format!("({s} and True)"),
                7 => format!("({a} or False)"),
                8 => format!("(not {a})"),
                9 => format!("({s} == {a})"),
                10 => format!("({s} == {t} == {s})"),
                11 => format!("({s} != {t} != {s})"),
                _ => format!("(None == {s})"),
            };
        }
        match self.r.below(if d == 0 { 3 } else { 8 }) {
            0 => "True".into(),
            1 => "False".into(),
            2 => format!("({} == {})", self.s(0), self.s(0)),
            3 => format!("({} != {})", self.s(d - 1), self.s(d - 1)),
            4 => format!("(not {})", self.boolean(d - 1)),
            5 => format!("({} {} {})", self.boolean(d - 1), self.r.pick(&["and", "or"]).to_string(), self.boolean(d - 1)),
            6 => format!("({} {} {})", self.int(1), self.r.pick(&["==", "<", ">"]).to_string(), self.int(1)),
            _ => self.r.pick(&["(os.name == 'posix')", "(os.name == 'nt')", "(os.getenv('REZMON_SET', 'd') == 'Mixed Case')", "(os.getenv('REZMON_UNSET', 'd') == 'd')", "(os.getenv('REZMON_SET').lower() == 'mixed case')"]).to_string(),
        }
    }
    fn s(&mut self, d: usize) -> String {
        if self.allow && self.r.chance(1, 14) {
            self.hostile = true;
            let (w, a) = (self.s(0), self.int(0));
            return match self.r.below(18) {
                0 => format!("({w} * -2)"),
                1 => format!("({w} * 4000000)"),
                2 => format!("({w} % 3)"),
                3 => format!("f\"x{{{a}}}\""),
                4 => format!("\"{{a}}-{{0}}\".format({w}, a=1)"),
                5 => format!("\"{{:>5}}|{{!r}}\".format({w}, {w})"),
                6 => format!("\"{{}}{{0}}\".format({w})"),
                7 => format!("\"{{5}}\".format({w})"),
                8 => format!("\"{{0}}{{1}}\".format({w}, \"{{0}}\")"),
                9 => format!("\"{{0}} {{1}} {{}}\".format({w}, {a})"),
                10 => format!("({w} or {w})"),
                11 => format!("{w}.lower(1)"),
                12 => format!("{w}.upper()"),
                13 => format!("str({a})"),
                14 => format!("({w})[0:2]"),
                15 => "os.getenv(\"REZMON_UNSET\", default=\"kw\")".to_string(),
                16 => format!("\"{{0}}\".format(True) + \"{{}}\".format(1.0) + \"{{0}}\".format({w}, {a})"),
                _ => "(9223372036854775807 + 1)".to_string(),
            };
        }
        match self.r.below(if d == 0 { 3 } else { 10 }) {
            0 | 1 => {
                let w = self.word();
                self.lit(&w)
            }
            2 if !self.strs.is_empty() => self.r.pick(&self.strs).clone(),
            3 => format!("({} + {})", self.s(d - 1), self.s(d - 1)),
            4 => format!("({} * {})", self.s(d - 1), self.r.below(4)),
            5 => format!("{}.lower()", self.s(d - 1)),
            6 => format!("({} if {} else {})", self.s(d - 1), self.boolean(d - 1), self.s(d - 1)),
            7 => {
                let k = self.r.range(1, 3);
                let explicit = self.r.chance(1, 2);
                let mut f = String::new();
                for i in 0..k {
                    f.push_str(*self.r.pick(&["a", "-", "{{x}}", "}}", "{{", " "]));
                    let j = if explicit { self.r.below(k) } else { i };
                    f.push_str(&if explicit { format!("{{{j}}}") } else { "{}".to_string() });
                }
                let args: Vec<String> = (0..k).map(|_| if self.r.chance(1, 4) { self.int(1) } else { self.s(d - 1) }).collect();
                format!("\"{f}\".format({})", args.join(", "))
            }
            8 if self.in_cmd => self.r.pick(&["this.name", "this.version", "this.version.major", "system.platform"]).to_string(),
            8 => "os.getenv('REZMON_SET')".into(),
            _ => {
                let w = self.word();
                self.lit(&w)
            }
        }
    }
    fn list(&mut self, d: usize, reqs: bool) -> String {
        if self.allow && self.r.chance(1, 14) {
            self.hostile = true;
            return match self.r.below(6) {
                0 => "[x for x in ['a', 'b']]".into(),
                1 => "'a b'.split()".into(),
                2 => "sorted(['b', 'a'])".into(),
                3 => "['a', None]".into(),
                4 => "['a', ['b']]".into(),
                _ => "['a'] * 2".into(),
            };
        }
        if d > 0 && self.r.chance(1, 4) {
            return format!("({} + {})", self.list(d - 1, reqs), self.list(d - 1, reqs));
        }
        if !self.lists.is_empty() && self.r.chance(1, 6) {
            return self.r.pick(&self.lists).clone();
        }
        let n = self.r.below(4);
        let xs: Vec<String> = (0..n)
            .map(|_| {
                if reqs {
                    let base = self.r.pick(&["foo", "bar-1", "baz-1.2+", "~opt", "!no-3"]).to_string();
                    let l = self.lit(&base);
                    if self.r.chance(1, 5) { format!("{l} + {}", self.s(1)) } else { l }
                } else {
                    self.s(2)
                }
            })
            .collect();
        format!("[{}{}]", xs.join(", "), if n > 0 && self.r.chance(1, 3) { "," } else { "" })
    }
    fn assign(&mut self, ind: &str) -> String {
        let f = *self.r.pick(&[
            "description", "help", "uuid", "base", "build_command", "build_system", "pre_build_commands", "requires_rez_version", "preprocess", "authors", "requires", "requires", "build_requires", "private_build_requires", "tools", "plugin_for", "variants", "tests", "relocatable", "cachable", "hashed_variants", "has_plugins", "format_version",
            "version", "_tmp", "_tmp", "_num", "_lst",
        ]);
        let v = match f {
            "authors" | "tools" | "plugin_for" => self.list(2, false),
            "requires" | "build_requires" | "private_build_requires" => {
                let l = self.list(1, true);
                if self.r.chance(1, 6) && l.starts_with('[') && !l.contains('+') && l.len() > 2 { format!("({},)", l[1..l.len() - 1].trim_end_matches(',')) } else { l }
            }
            "variants" => {
                let n = self.r.range(1, 3);
                let vs: Vec<String> = (0..n).map(|_| self.list(0, true)).collect();
                format!("[{}]", vs.join(", "))
            }
            "tests" => {
                let n = self.r.below(3);
                let vs: Vec<String> = (0..n).map(|i| format!("\"t{i}\": {}", self.s(1))).collect();
                format!("{{{}}}", vs.join(", "))
            }
            "relocatable" | "cachable" | "hashed_variants" | "has_plugins" => {
                if self.r.chance(1, 5) { "None".into() } else { self.boolean(2) }
            }
            "format_version" => self.int(1),
            "version" => {
                if self.r.chance(1, 8) && self.allow {
                    self.hostile = true;
                    self.r.pick(&["1.0", "2", "True", "1.10", "None", "12345678901234567890123"]).to_string()
                } else {
                    let w = self.r.pick(&["1", "1.0", "2.3.4", "1.0.beta"]).to_string();
                    let l = self.lit(&w);
                    if self.r.chance(1, 3) { format!("{l} + \".{}\"", self.r.below(5)) } else { l }
                }
            }
            "_num" => self.int(2),
            "_lst" => self.list(1, false),
            _ => self.s(2),
        };
        let name = match f {
            "_tmp" | "_num" | "_lst" => {
                self.n += 1;
                format!("{f}{}", self.n)
            }
            _ => f.to_string(),
        };
        let out = format!("{ind}{name} = {v}\n");
        if ind.is_empty() {
            match f {
                "_tmp" => self.strs.push(name),
                "_num" => self.ints.push(name),
                "_lst" => self.lists.push(name),
                _ => {}
            }
        }
        out
    }
    fn hostile_stmt(&mut self) -> String {
        self.hostile = true;
        let (s, t) = (self.s(1), self.s(1));
        match self.r.below(38) {
            31 => format!("if {}:\n    description = {s}\nelse:\n    description = {t}\n", self.r.pick(&["None and True", "None or True", "'' or False", "'a' and False", "0 or True", "True and None", "True and 'x'", "False or ''", "[] or True", "not None", "not ''"])),
            32 => format!("_d = {{\"k\": {s}, \"j\": \"v\", \"k\": {t}}}\ntests = _d\n"),
            33 => format!("description = \"{}\".lower()\n", self.r.pick(&["ÀÉÎ", "STRASSE ẞ", "İI", "ΑΒΣ", "ДА", "Ǆ", "ΌΔΟΣ x"])),
            34 => "name = description = \"pkgq\"\nhelp = name = \"pkgr\"\n".into(),
            35 => format!("def pre_commands():\n    leak = {s}\n    env.V = leak\ndef post_commands():\n    env.W = leak\n{}", if self.r.chance(1, 2) { format!("leak = {t}\n") } else { String::new() }),
            36 => format!("_n = {} {} {}\ndescription = \"{{}}\".format(_n)\n", self.r.pick(&["9223372036854775807", "-9223372036854775807", "4611686018427387904", "3037000500", "-2"]), self.r.pick(&["+", "-", "*"]), self.r.pick(&["1", "2", "-1", "9223372036854775807", "3037000500", "(-2)"])),
            37 => format!("description = {} or {t}\n", self.r.pick(&["None", "''", "0", "'x'", "[]"])),
            28 => format!("requires = [\"aa\"]\nrequires = requires + [\"bb\"]\nprivate_build_requires = requires = requires + [\"cc\"]\n"),
            29 => format!("def commands():\n    version = {s}\n    name = {t}\n    env.A = version\n    env.B = this.name\n    env.C = name\n"),
            30 => format!("description = {s}\ndescription = description + {t} + description\n"),
            22 => format!("name = other = {s}\ntools = [other]\n"),
            23 => format!("description = help = {s}\n"),
            24 => format!("requires = build_requires = [\"q-1\"]\nrequires = [\"r\"]\n"),
            25 => format!("tools = [{s}]\nauthors = tools\ntools = tools + [{t}]\n"),
            26 => format!("v = {s}\ndef pre_commands():\n    v = {t}\n    w = {t}\n    env.V = v\n    env.V = v\n    env.V.append(w)\n    env.V.append(w)\ndescription = v\n{}", if self.r.chance(1, 2) { "help = w\n" } else { "" }),
            27 => format!("v = {s}\ndef commands():\n    {}\n    env.V = v\n    {}\nv = {t}\n{}", if self.r.chance(1, 3) { "v = \"own\"" } else { "pass" }, if self.r.chance(1, 3) { "v = \"late\"" } else { "env.V.append(v)" }, if self.r.chance(1, 2) { "if os.name == 'posix':\n    v = \"last\"\n" } else { "" }),
            0 => format!("x = requires = [\"mt-1\", \"{}\"]\n", "n"),
            1 => format!("x = description = {s}\n"),
            2 => format!("description, help = {s}, {t}\n"),
            3 => format!("[tools, authors] = [[{s}], [{t}]]\n"),
            4 => format!("requires = [\"a\"]\nrequires += [\"b\"]\n"),
            5 => format!("tools = []\ntools.append({s})\n"),
            6 => "for r in ['a', 'b']:\n    requires = [r]\n".into(),
            7 => format!("try:\n    description = {s}\nexcept Exception:\n    description = 'no'\n"),
            8 => format!("def helper():\n    return {s}\ndescription = helper()\n"),
            9 => format!("base_tests = {{'a': {s}}}\ntests = {{**base_tests, 'b': {t}}}\n"),
            10 => format!("description: str = {s}\n"),
            11 => format!("commands = {s}\ncommands = None\n"),
            12 => "format_version = 4294967298\n".into(),
            13 => "format_version = 2147483648\n".into(),
            14 => format!("d = {{}}\nd['requires'] = [{s}]\n"),
            15 => format!("description = {s}\ndel description\n"),
            16 => "while True:\n    tools = ['w']\n    break\n".into(),
            17 => "class X:\n    requires = ['c']\n".into(),
            18 => format!("globals()['description'] = {s}\n"),
            19 => format!("tools = ({s}, {t})\n"),
            20 => format!("if {s}:\n    description = {t}\n"),
            _ => "if 1 < 2 < 2:\n    requires = ['wrong']\nelse:\n    requires = ['right']\n".into(),
        }
    }
    fn cmd_stmt(&mut self, ind: &str, d: usize) -> String {
        let v = *self.r.pick(&["PATH", "FOO", "PYTHONPATH", "X_Y", "lower"]);
        if self.allow && self.r.chance(1, 10) {
            self.hostile = true;
            let (s, t) = (self.s(0), self.s(0));
            let body = match self.r.below(18) {
                0 => format!("env[\"{v}\"] = {s}"),
                1 => format!("env.{v} = \"both ' and \\\" quotes\""),
                2 => format!("env.{v} = \"two\\nlines\""),
                3 => format!("env.{v} = \"a')\\nenv.setenv('EVIL', 'x\""),
                4 => format!("env.{v}.append({s}, {t})"),
                5 => format!("env.setenv(\"{v}\", value={s})"),
                6 => format!("alias({s}, {t}, {s})"),
                7 => format!("env.{v} = env.FOO = {s}"),
                8 => format!("for p in [{s}, {t}]:\n{ind}    env.{v}.append(p)"),
                9 => format!("env[\"{v}\"].prepend({s})"),
                10 => "return".into(),
                11 => format!("env.{v} += {s}"),
                12 => format!("a, b = {s}, {t}\n{ind}env.{v} = a"),
                13 => format!("env.{v} = None"),
                14 => format!("env.{v} = [{s}]"),
                15 => format!("stop({s}, {t})"),
                16 => format!("env.{v} = {s} % 1"),
                _ => format!("info({s}, {t})"),
            };
            return format!("{ind}{body}\n");
        }
        let s = self.s(2);
        let body = match self.r.below(if d == 0 { 18 } else { 20 }) {
            0 | 1 => format!("env.{v} = {s}"),
            2 => format!("env.setenv(\"{v}\", {s})"),
            3 => format!("setenv('{v}', {s})"),
            4 => format!("env.prepend_path(\"{v}\", {s})"),
            5 => format!("env.append_path(\"{v}\", {s})"),
            6 => format!("env.{v}.prepend({s})"),
            7 => format!("env.{v}.append({s})"),
            8 => format!("env.{v}.set({s})"),
            9 => format!("env.unsetenv(\"{v}\")"),
            10 => format!("unsetenv(\"{v}\")"),
            11 => format!("env.setenv_if_empty(\"{v}\", {s})"),
            12 => format!("alias(\"tool{}\", {s})", self.r.below(3)),
            13 => format!("{}({s})", self.r.pick(&["command", "source", "info", "error"])),
            14 => format!("resetenv(\"{v}\")"),
            15 => format!("{}(\"{v}\", {s})", self.r.pick(&["prependenv", "appendenv"])),
            16 => {
                if self.r.chance(1, 3) { "stop()".into() } else { format!("stop({s})") }
            }
            17 => {
                self.n += 1;
                let name = format!("_loc{}", self.n);
                let o = format!("{name} = {s}\n{ind}env.{v} = {name} + '.'");
                o
            }
            18 => "pass".into(),
            _ => {
                let c = self.boolean(1);
                let mut a = self.cmd_stmt(&format!("{ind}    "), d - 1);
                let mut b = self.cmd_stmt(&format!("{ind}    "), d - 1);
                if self.r.chance(1, 4) {
                    a = format!("{a}{a}");
                }
                if self.r.chance(1, 3) {
                    b.push_str(&self.cmd_stmt(&format!("{ind}    "), d - 1));
                }
                if self.r.chance(1, 4) {
                    let c2 = self.boolean(0);
                    let e = self.cmd_stmt(&format!("{ind}    "), d - 1);
                    return format!("{ind}if {c}:\n{a}{ind}elif {c2}:\n{e}{ind}else:\n{b}");
                }
                return format!("{ind}if {c}:\n{a}{ind}else:\n{b}");
            }
        };
        format!("{ind}{body}\n")
    }
    fn program(&mut self) -> String {
        let mut o = String::new();
        if self.r.chance(1, 6) {
            o.push_str("\"\"\"doc string\"\"\"\n# comment\n");
        }
        o.push_str("import os\n");
        let nm = self.r.pick(&["pkg", "my_pkg", "Pkg2", "a-b"]).to_string();
        let l = self.lit(&nm);
        o.push_str(&format!("name = {l}\n"));
        let n = self.r.range(2, 9);
        let cmd_at = self.r.below(n + 1);
        for i in 0..n {
            if self.allow && self.r.chance(1, 10) {
                let st = self.hostile_stmt();
                o.push_str(&st);
            } else if self.r.chance(1, 6) {
                let c = self.boolean(2);
                let a = self.assign("    ");
                let b = self.assign("    ");
                if self.r.chance(1, 4) {
                    let c2 = self.boolean(1);
                    let e = self.assign("    ");
                    o.push_str(&format!("if {c}:\n{a}elif {c2}:\n{e}else:\n{b}"));
                } else {
                    o.push_str(&format!("if {c}:\n{a}else:\n{b}"));
                }
            } else {
                let st = self.assign("");
                o.push_str(&st);
            }
            if i + 1 == cmd_at || (i == 0 && cmd_at == 0) {
                // command bodies run without the module's own variables
                let (a, b, c) = (std::mem::take(&mut self.strs), std::mem::take(&mut self.ints), std::mem::take(&mut self.lists));
                self.in_cmd = true;
                for f in ["commands", "pre_commands", "post_commands", "pre_test_commands"] {
                    if self.r.chance(1, if f == "commands" { 2 } else { 6 }) {
                        // `this` is complete only once the module has been read
                        o.push_str(&format!("version = \"{}\"\n", self.r.pick(&["1.2.3", "7", "2024.1"])));
                        o.push_str(&format!("def {f}():\n"));
                        if self.r.chance(1, 6) {
                            o.push_str("    \"doc\"\n    import os\n");
                        }
                        for _ in 0..self.r.range(1, 5) {
                            let st = self.cmd_stmt("    ", 2);
                            o.push_str(&st);
                            if self.r.chance(1, 10) {
                                o.push_str(&st);
                            }
                        }
                    }
                }
                self.in_cmd = false;
                (self.strs, self.ints, self.lists) = (a, b, c);
            }
        }
        o
    }
}

pub fn actions(text: &str) -> Result<Value, String> {
    let acts = RexParser::new().parse(text).map_err(|e| e.to_string())?;
    Ok(Value::Array(
        acts.into_iter()
            .map(|a| match a.action_type {
                A::Setenv { name, value } => json!(["setenv", name, value]),
                A::Unsetenv { name } => json!(["unsetenv", name]),
                A::PrependPath { name, value, .. } => json!(["prepend", name, value]),
                A::AppendPath { name, value, .. } => json!(["append", name, value]),
                A::SetenvIfEmpty { name, value } => json!(["setenv_if_empty", name, value]),
                A::Alias { name, value } => json!(["alias", name, value]),
                A::Command { cmd } => json!(["command", cmd]),
                A::Source { path } => json!(["source", path]),
                A::Resetenv { name } => json!(["resetenv", name]),
                A::Info { message } => json!(["info", message]),
                A::Error { message } => json!(["error", message]),
                A::Stop { message: Some(m) } => json!(["stop", m]),
                A::Stop { message: None } => json!(["stop"]),
                A::Comment { text } => json!(["comment", text]),
            })
            .collect(),
    ))
}

/// the first field on which the loaded package differs from what Python computed
fn differs(p: &Package, want: &Value) -> Option<String> {
    let strs: [(&str, Option<String>); 11] = [
        ("name", Some(p.name.clone())),
        ("version", p.version.as_ref().map(|v| v.as_str().to_string())),
        ("description", p.description.clone()),
        ("build_command", p.build_command.clone()),
        ("build_system", p.build_system.clone()),
        ("uuid", p.uuid.clone()),
        ("pre_build_commands", p.pre_build_commands.clone()),
        ("requires_rez_version", p.requires_rez_version.clone()),
        ("help", p.help.clone()),
        ("base", p.base.clone()),
        ("preprocess", p.preprocess.clone()),
    ];
    for (f, got) in strs {
        if got.as_deref() != want.get(f).and_then(|x| x.as_str()) {
            return Some(format!("{f}: {got:?}"));
        }
    }
    let lists: [(&str, &Vec<String>); 6] =
        [("authors", &p.authors), ("requires", &p.requires), ("build_requires", &p.build_requires), ("private_build_requires", &p.private_build_requires), ("tools", &p.tools), ("plugin_for", &p.plugin_for)];
    for (f, got) in lists {
        if json!(got) != *want.get(f).unwrap_or(&json!([])) {
            return Some(format!("{f}: {got:?}"));
        }
    }
    for (f, got) in [("relocatable", p.relocatable), ("cachable", p.cachable), ("hashed_variants", p.hashed_variants), ("has_plugins", p.has_plugins)] {
        if json!(got) != *want.get(f).unwrap_or(&Value::Null) {
            return Some(format!("{f}: {got:?}"));
        }
    }
    if json!(p.variants) != *want.get("variants").unwrap_or(&json!([])) {
        return Some(format!("variants: {:?}", p.variants));
    }
    if json!(p.tests) != *want.get("tests").unwrap_or(&json!({})) {
        return Some(format!("tests: {:?}", p.tests));
    }
    if json!(p.format_version) != *want.get("format_version").unwrap_or(&Value::Null) {
        return Some(format!("format_version: {:?}", p.format_version));
    }
    for (f, got) in [("commands", &p.commands), ("pre_commands", &p.pre_commands), ("post_commands", &p.post_commands), ("pre_test_commands", &p.pre_test_commands)] {
        let w = want.get(f).unwrap_or(&Value::Null);
        let ok = match (w, got) {
            (Value::Object(o), Some(g)) => o["text"].as_str() == Some(g),
            (Value::Array(a), g) => match actions(g.as_deref().unwrap_or("")) {
                Ok(acts) => acts == json!(a),
                Err(e) => return Some(format!("{f}: {e}")),
            },
            (Value::Null, None) => true,
            _ => false,
        };
        if !ok {
            return Some(format!("{f}: {got:?}"));
        }
    }
    None
}

pub fn p01(m: &mut Mon) {
    m.describe(
        "generated package.py programs are loaded by the real parser and executed by CPython; every field and every recorded command of an accepted file must be what CPython computed, and plain files must be accepted",
        &["CPython 3 is the reference for evaluation", "command bodies are recorded through stand-ins for the Rex functions"],
        3000,
    );
    unsafe { std::env::set_var("REZMON_SET", "Mixed Case") };
    let dir = fresh("py");
    std::fs::write(dir.join("ref.py"), include_str!("pyref.py")).unwrap();
    let rounds = m.size(3, 12);
    let mut r = m.rng(1);
    for round in 0..rounds {
        let mut progs = vec![];
        for i in 0..1500 {
            let allow = i % 2 == 0;
            let mut g = Gen { r: r.fork(), hostile: false, allow, strs: vec![], ints: vec![], lists: vec![], in_cmd: false, n: 0 };
            let p = g.program();
            progs.push((p, g.hostile));
        }
        let texts: Vec<&String> = progs.iter().map(|x| &x.0).collect();
        let (a, b) = (dir.join("in.json"), dir.join("out.json"));
        std::fs::write(&a, serde_json::to_string(&texts).unwrap()).unwrap();
        let st = std::process::Command::new("python3").arg(dir.join("ref.py")).arg(&a).arg(&b).status();
        if !st.map(|s| s.success()).unwrap_or(false) {
            eprintln!("HARNESS-ERROR: the reference interpreter failed");
            std::process::exit(3);
        }
        let res: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&b).unwrap()).unwrap();
        for ((text, hostile), want) in progs.iter().zip(res) {
            crumb(text.clone());
            let Some(got) = m.guard("loading a definition never panics", || json!(text), || PackageSerializer::load_from_python(text)) else { continue };
            m.seen(text);
            m.count(if *hostile { "programs with unusual constructs" } else { "plain programs" }, 1);
            match (got, want.get("ok")) {
                (Ok(p), Some(w)) => {
                    m.count("accepted and compared", 1);
                    let d = differs(&p, w);
                    m.check("an accepted definition has the values Python computes", d.is_none(), || json!({"program": text, "python": w, "loaded": d}));
                }
                (Ok(p), None) => {
                    m.check("a definition Python cannot evaluate to metadata is rejected", false, || json!({"program": text, "python": want, "loaded": format!("{:?} {:?}", p.name, p.requires)}));
                }
                (Err(e), Some(w)) => {
                    m.count("rejected", 1);
                    let empty = ["requires", "build_requires", "private_build_requires"].iter().any(|f| w[*f].as_array().is_some_and(|x| x.iter().any(|y| y == "")))
                        || w["variants"].as_array().is_some_and(|x| x.iter().any(|v| v.as_array().is_some_and(|v| v.iter().any(|y| y == ""))));
                    let quotes = ["commands", "pre_commands", "post_commands", "pre_test_commands"].iter().any(|f| {
                        w[*f].as_array().is_some_and(|x| {
                            x.iter().any(|y| y.as_array().is_some_and(|z| z.iter().any(|t| t.as_str().is_some_and(|t| t.contains('\n') || (t.contains('\'') && t.contains('"'))))))
                        })
                    });
                    let okver = w.get("version").and_then(|v| v.as_str()).is_none_or(|v| Version::parse(v).is_ok());
                    if *hostile || empty || quotes || !okver {
                        m.inconclusive("unusual construct rejected");
                    } else {
                        m.check("a plain definition is accepted", false, || json!({"program": text, "error": e.to_string()}));
                    }
                }
                (Err(_), None) => { m.check("a definition Python cannot evaluate to metadata is rejected", true, || Value::Null); }
            }
            if m.full() {
                break;
            }
        }
        if round == 0 {
            m.sample(json!({"program": progs[0].0}));
        }
        if m.full() {
            break;
        }
    }
    // damaged texts never panic
    for i in 0..m.size(1500, 10) {
        let mut g = Gen { r: r.fork(), hostile: false, allow: true, strs: vec![], ints: vec![], lists: vec![], in_cmd: false, n: 0 };
        let mut t: Vec<char> = g.program().chars().collect();
        for _ in 0..r.range(1, 4) {
            let k = r.below(t.len());
            match r.below(3) {
                0 => {
                    t.remove(k);
                }
                1 => t.insert(k, *r.pick(&['(', ')', '"', '\'', '\\', '\n', '{', '\u{0}', '=', '-', '*', '[', 'é'])),
                _ => t.truncate(k.max(1)),
            }
            if t.is_empty() {
                t.push('x');
            }
        }
        let t: String = t.into_iter().collect();
        crumb(t.clone());
        m.seen(&t);
        if m.guard("loading a damaged definition never panics", || json!(t), || PackageSerializer::load_from_python(&t).is_ok()).is_some() {
            m.check("loading a damaged definition ends", true, || json!(i));
        }
        if m.full() {
            break;
        }
    }
    rm(&dir);
}

// ---------------------------------------------------------------- P02
const TEXTS: &[&str] = &[
    "plain", "", "yes", "null", "~", "1.0", "0x10", "true", "- item", "# no comment", "a: b", "say \"hi\"", "it's", "both ' and \"", "back\\slash", "C:\\new\\table", "line one\nline two", "trailing newline\n", "\nleading", "tab\there", "  spaced  ",
    "ünï-日本-\u{1f600}", "{brace}", "[x]", "*anchor", "&amp; <b> </description> <name>x</name>", "%d %s", "@at", "`tick`", "key: |\n  block\n", "\u{85}nel\u{2028}", "ctrl\u{1}\u{7f}", "'''", "\"\"\"", "\\", "\\\"", "cr\rlf\r\n", "---", "...", "!!tag", "a #b", "2024-01-01", "]]>", "1_000", "-", "- - a\n- b", "&lt;b&gt; &amp;amp; &#39;", "\u{feff}bom", "x \n\n ", "&quot;",
];
fn t(r: &mut Rng) -> String {
    if r.chance(1, 6) { format!("{}{}", r.pick(TEXTS), r.pick(TEXTS)) } else { r.pick(TEXTS).to_string() }
}
fn ot(r: &mut Rng) -> Option<String> {
    r.chance(1, 2).then(|| t(r))
}
fn lt(r: &mut Rng) -> Vec<String> {
    (0..r.below(4)).map(|_| t(r)).collect()
}
fn lreq(r: &mut Rng) -> Vec<String> {
    (0..r.below(4)).map(|_| r.pick(&["foo-1.0+", "bar", "~baz-2", "!x-1", "a==1|2", "weird \"q\"", "back\\s", "yes", "1.0", "ünï"]).to_string()).collect()
}
fn ob(r: &mut Rng) -> Option<bool> {
    r.chance(1, 2).then(|| r.chance(1, 2))
}
fn ver(r: &mut Rng) -> Option<Version> {
    r.chance(3, 4).then(|| Version::parse(r.pick(&["1", "1.0", "1.0.0-beta", "2024.1", "1.10", "0", "a.b", "1.0_x", "007", "1e3"])).ok()).flatten()
}
pub fn package(r: &mut Rng) -> Package {
    let mut p = Package::new(r.pick(&["pkg", "my-pkg", "Pkg_2", "yes", "null", "123", "ünï"]).to_string());
    p.version = ver(r);
    p.description = ot(r);
    p.authors = lt(r);
    p.requires = lreq(r);
    p.build_requires = lreq(r);
    p.private_build_requires = lreq(r);
    p.variants = (0..r.below(4)).map(|_| lreq(r)).collect();
    p.tools = lt(r);
    p.commands = ot(r);
    p.build_command = ot(r);
    p.build_system = ot(r);
    p.pre_commands = ot(r);
    p.post_commands = ot(r);
    p.pre_test_commands = ot(r);
    p.pre_build_commands = ot(r);
    p.tests = (0..r.below(3)).map(|_| (t(r), t(r))).collect();
    p.requires_rez_version = ot(r);
    p.uuid = ot(r);
    p.help = ot(r);
    p.relocatable = ob(r);
    p.cachable = ob(r);
    p.timestamp = r.chance(1, 2).then(|| *r.pick(&[0i64, -1, 1700000000, i64::MAX, i64::MIN, 1 << 53]));
    p.revision = ot(r);
    p.changelog = ot(r);
    p.release_message = ot(r);
    p.previous_version = ver(r);
    p.previous_revision = ot(r);
    p.vcs = ot(r);
    p.format_version = r.chance(1, 2).then(|| *r.pick(&[0, 2, -1, i32::MAX, i32::MIN]));
    p.base = ot(r);
    p.has_plugins = ob(r);
    p.plugin_for = lt(r);
    p.hashed_variants = ob(r);
    p.preprocess = ot(r);
    p.is_dev_package = ob(r);
    p
}
/// what a format carries of a package
pub fn view(p: &Package, f: PackageFormat) -> Value {
    let v = |x: &Option<Version>| x.as_ref().map(|v| v.as_str().to_string());
    let mut o = json!({"name": p.name, "version": v(&p.version), "description": p.description, "authors": p.authors, "requires": p.requires});
    if f == PackageFormat::Xml {
        return o;
    }
    let more = json!({"build_requires": p.build_requires, "private_build_requires": p.private_build_requires, "variants": p.variants, "tools": p.tools, "commands": p.commands,
        "build_command": p.build_command, "build_system": p.build_system, "pre_commands": p.pre_commands, "post_commands": p.post_commands, "pre_test_commands": p.pre_test_commands,
        "pre_build_commands": p.pre_build_commands, "tests": p.tests, "requires_rez_version": p.requires_rez_version, "uuid": p.uuid, "help": p.help, "relocatable": p.relocatable, "cachable": p.cachable,
        "format_version": p.format_version, "base": p.base, "has_plugins": p.has_plugins, "plugin_for": p.plugin_for, "hashed_variants": p.hashed_variants, "preprocess": p.preprocess});
    for (k, x) in more.as_object().unwrap() {
        o[k] = x.clone();
    }
    if f != PackageFormat::Python {
        let more = json!({"timestamp": p.timestamp, "revision": p.revision, "changelog": p.changelog, "release_message": p.release_message, "previous_version": v(&p.previous_version),
            "previous_revision": p.previous_revision, "vcs": p.vcs, "is_dev_package": p.is_dev_package});
        for (k, x) in more.as_object().unwrap() {
            o[k] = x.clone();
        }
    }
    o
}
fn diff(a: &Value, b: &Value) -> Value {
    let mut o = json!({});
    for (k, x) in a.as_object().unwrap() {
        if b[k] != *x {
            o[k] = json!({"want": x, "got": b[k]});
        }
    }
    o
}

pub fn p02(m: &mut Mon) {
    m.describe(
        "packages with hostile field contents are written by the real serializer in every format and option set and read back; every field the format carries must be unchanged, and damaged contents never panic",
        &["XML carries name, version, description, authors and requires; Python carries what package.py can state"],
        20_000,
    );
    let mut r = m.rng(1);
    let dir = fresh("fmt");
    use PackageFormat as F;
    let all = [F::Yaml, F::Json, F::Python, F::YamlCompressed, F::JsonCompressed, F::Binary, F::Toml, F::Xml];
    for i in 0..m.size(1500, 10) {
        let p = package(&mut r);
        m.seen(&format!("{p:?}"));
        for f in all {
            let inp = || json!({"format": format!("{f:?}"), "package": view(&p, f)});
            crumb(format!("{f:?} {:?}", view(&p, f)));
            let want = view(&p, f);
            // text form
            if let Some(x) = m.guard("saving and loading never panic", inp, || PackageSerializer::save_to_string(&p, f).map(|s| (PackageSerializer::load_from_string(&s, f), s))) {
                match x {
                    Err(e) => {
                        m.check("a valid package can be saved", false, || json!({"in": inp(), "error": e.to_string()}));
                    }
                    Ok((Err(e), s)) => {
                        m.check("a saved package can be read back", false, || json!({"format": format!("{f:?}"), "error": e.to_string(), "text": s}));
                    }
                    Ok((Ok(q), s)) => {
                        let got = view(&q, f);
                        m.check("a package read back is the package saved", want == got, || json!({"format": format!("{f:?}"), "diff": diff(&want, &got), "text": s.chars().take(400).collect::<String>()}));
                        if i % 4 == 0 && s.len() > 2 {
                            let mut t: Vec<char> = s.chars().collect();
                            let k = r.below(t.len());
                            match r.below(3) {
                                0 => t.truncate(k),
                                1 => t[k] = *r.pick(&['<', '"', ':', '\n', 'é', '{', '-', '0']),
                                _ => {
                                    t.remove(k);
                                }
                            }
                            let t: String = t.into_iter().collect();
                            if m.guard("a damaged definition never panics", || json!({"format": format!("{f:?}"), "text": t}), || PackageSerializer::load_from_string(&t, f).is_ok()).is_some() {
                                m.count("damaged texts", 1);
                            }
                        }
                    }
                }
            }
            // file form, with options
            let path = dir.join(f.default_filename());
            let mut opts = match r.below(5) {
                0 => None,
                1 => Some(SerializationOptions::new()),
                2 => Some(SerializationOptions::minimal()),
                3 => Some(SerializationOptions { include_metadata: false, ..SerializationOptions::new() }),
                _ => Some(SerializationOptions::compact()),
            };
            let mut filtered = p.clone();
            if f != F::Binary {
                let pick = |r: &mut Rng, from: &[&str]| from.iter().filter(|_| r.chance(1, 2)).map(|x| x.to_string()).collect::<Vec<_>>();
                if let Some(o) = opts.as_mut() {
                    if r.chance(1, 5) {
                        o.exclude_fields = Some(pick(&mut r, &["authors", "tools", "description", "help"]));
                    }
                    if r.chance(1, 5) {
                        o.include_only = Some(pick(&mut r, &["name", "version", "description", "authors", "requires", "build_requires", "variants", "tools"]));
                    }
                }
                if let Some(x) = opts.as_ref().and_then(|o| o.exclude_fields.clone()) {
                    for k in x {
                        match k.as_str() {
                            "description" => filtered.description = None,
                            "help" => filtered.help = None,
                            "authors" => filtered.authors.clear(),
                            "tools" => filtered.tools.clear(),
                            _ => {}
                        }
                    }
                }
                if let Some(x) = opts.as_ref().and_then(|o| o.include_only.clone()) {
                    let has = |k: &str| x.iter().any(|y| y == k);
                    let mut n = Package::new(filtered.name.clone());
                    if has("version") {
                        n.version = filtered.version.clone();
                    }
                    if has("description") {
                        n.description = filtered.description.clone();
                    }
                    for (k, to, from) in [
                        ("authors", &mut n.authors, &filtered.authors),
                        ("requires", &mut n.requires, &filtered.requires),
                        ("build_requires", &mut n.build_requires, &filtered.build_requires),
                        ("tools", &mut n.tools, &filtered.tools),
                    ] {
                        if has(k) {
                            *to = from.clone();
                        }
                    }
                    if has("variants") {
                        n.variants = filtered.variants.clone();
                    }
                    filtered = n;
                    m.count("files written with chosen fields only", 1);
                }
            }
            let want = view(&filtered, f);
            let desc = format!("{f:?} {opts:?}");
            if let Some(x) = m.guard("saving and loading never panic", inp, || {
                PackageSerializer::save_to_file_with_options(&p, &path, f, opts.clone())?;
                PackageSerializer::load_from_file_with_options(&path, None).map(|c: PackageContainer| c.package)
            }) {
                match x {
                    Err(e) => {
                        m.check("a package file can be written and read back", false, || json!({"options": desc, "error": e.to_string(), "package": want}));
                    }
                    Ok(q) => {
                        let got = view(&q, f);
                        m.check("a package read back from a file is the package saved", want == got, || json!({"options": desc, "diff": diff(&want, &got)}));
                    }
                }
            }
            // a file cut short is never taken for the whole one
            if i % 10 == 0 && f.supports_compression() {
                let b = std::fs::read(&path).unwrap_or_default();
                if b.len() > 20 {
                    let k = r.range(1, b.len() - 9);
                    std::fs::write(&path, &b[..k]).unwrap();
                    if let Some(q) = m.guard("a damaged file never panics", inp, || PackageSerializer::load_from_file(&path)) {
                        m.check("a compressed file cut short is rejected", q.is_err(), || json!({"format": format!("{f:?}"), "kept": k, "of": b.len()}));
                    }
                }
            }
            if m.full() {
                break;
            }
        }
        // definitions written by hand: a version is text, never a rounded number, and what is no version is refused
        let v = *r.pick(&["1.10", "2.0", "3", "1.5e3", "\"1.10\"", "true", "[1]", "\"not a version !\"", "\"7.0.0\""]);
        for field in ["version", "previous_version"] {
            for (f, text) in [(F::Json, format!("{{\"name\": \"hand\", \"{field}\": {v}}}")), (F::Yaml, format!("name: hand\n{field}: {v}\n"))] {
                let inp = || json!({"format": format!("{f:?}"), "text": text});
                if let Some(q) = m.guard("loading a definition written by hand never panics", inp, || PackageSerializer::load_from_string(&text, f)) {
                    let got = q.ok().map(|q| if field == "version" { q.version } else { q.previous_version }.map(|v| v.as_str().to_string()));
                    let literal = v.trim_matches('"');
                    let ok = match &got {
                        None => v != "\"1.10\"" && v != "\"7.0.0\"",
                        Some(Some(g)) => g == literal && Version::parse(literal).is_ok(),
                        Some(None) => false,
                    };
                    m.check("a version written by hand is read as written or refused", ok, || json!({"in": inp(), "got": got}));
                }
            }
        }
        if i == 0 {
            m.sample(json!({"package": view(&p, F::Json)}));
        }
        if m.full() {
            break;
        }
    }
    rm(&dir);
}

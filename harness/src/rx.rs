//! A small backtracking regular-expression matcher (Perl semantics, with
//! look-around), independent of the crate under test and of the `regex` crate.
//! It is used by the reference models.

#[derive(Clone, Debug)]
enum N {
    Ch(char),
    Any,                       // with (?s) any character, otherwise not a newline
    Set(Vec<Item>, bool),      // items, negated
    Group(Box<N>, Option<usize>),
    Cat(Vec<N>),
    Alt(Vec<N>),
    Rep(Box<N>, usize, usize, bool), // min, max, greedy
    Bol,
    Eol,
    BeginText,
    EndText,
    Look(Box<N>, bool, bool), // ahead?, negated?  (look-behind: exactly one character)
}
#[derive(Clone, Debug)]
enum Item {
    Range(char, char),
    Word,
    Digit,
    Space,
    Alpha,
    Alnum,
    NotSpace,
    NotWord,
}

pub struct Rx {
    n: N,
    groups: usize,
    multi: bool,
    dotall: bool,
}

pub fn is_word(c: char) -> bool {
    c == '_' || if (c as u32) < 128 { c.is_ascii_alphanumeric() } else { c.is_alphanumeric() || ('\u{300}'..='\u{36f}').contains(&c) }
}
pub fn is_space(c: char) -> bool {
    if (c as u32) < 128 { c == ' ' || ('\t'..='\r').contains(&c) } else { c.is_whitespace() }
}
fn item(i: &Item, c: char) -> bool {
    match i {
        Item::Range(a, b) => *a <= c && c <= *b,
        Item::Word => is_word(c),
        Item::NotWord => !is_word(c),
        Item::Digit => if (c as u32) < 128 { c.is_ascii_digit() } else { c.is_numeric() },
        Item::Space => is_space(c),
        Item::NotSpace => !is_space(c),
        Item::Alpha => c.is_alphabetic(),
        Item::Alnum => c.is_alphanumeric(),
    }
}

struct P<'a> {
    s: &'a [char],
    i: usize,
    g: usize,
}
impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, t: &str) -> bool {
        let n = t.chars().count();
        if self.s.len() >= self.i + n && t.chars().enumerate().all(|(k, c)| self.s[self.i + k] == c) {
            self.i += n;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> N {
        let mut v = vec![self.cat()];
        while self.eat("|") {
            v.push(self.cat());
        }
        if v.len() == 1 { v.pop().unwrap() } else { N::Alt(v) }
    }
    fn cat(&mut self) -> N {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom();
            v.push(self.quant(a));
        }
        if v.len() == 1 { v.pop().unwrap() } else { N::Cat(v) }
    }
    fn quant(&mut self, a: N) -> N {
        let (lo, hi) = if self.eat("*") {
            (0, usize::MAX)
        } else if self.eat("+") {
            (1, usize::MAX)
        } else if self.eat("?") {
            (0, 1)
        } else if self.peek() == Some('{') {
            self.i += 1;
            let lo = self.num();
            let hi = if self.eat(",") { if self.peek() == Some('}') { usize::MAX } else { self.num() } } else { lo };
            assert!(self.eat("}"));
            (lo, hi)
        } else {
            return a;
        };
        let lazy = self.eat("?");
        N::Rep(Box::new(a), lo, hi, !lazy)
    }
    fn num(&mut self) -> usize {
        let mut n = 0;
        while let Some(c) = self.peek()
            && c.is_ascii_digit()
        {
            n = n * 10 + (c as usize - 48);
            self.i += 1;
        }
        n
    }
    fn esc(&mut self) -> Result<Item, char> {
        let c = self.s[self.i];
        self.i += 1;
        match c {
            'w' => Ok(Item::Word),
            'W' => Ok(Item::NotWord),
            'd' => Ok(Item::Digit),
            's' => Ok(Item::Space),
            'S' => Ok(Item::NotSpace),
            'a' => Ok(Item::Alpha),
            'N' => Ok(Item::Alnum),
            'n' => Err('\n'),
            't' => Err('\t'),
            c => Err(c),
        }
    }
    fn atom(&mut self) -> N {
        for (t, ahead, neg) in [("(?=", true, false), ("(?!", true, true), ("(?<=", false, false), ("(?<!", false, true)] {
            if self.eat(t) {
                let n = self.alt();
                assert!(self.eat(")"));
                return N::Look(Box::new(n), ahead, neg);
            }
        }
        if self.eat("(?:") {
            let n = self.alt();
            assert!(self.eat(")"));
            return N::Group(Box::new(n), None);
        }
        if self.eat("(") {
            self.g += 1;
            let g = self.g;
            let n = self.alt();
            assert!(self.eat(")"));
            return N::Group(Box::new(n), Some(g));
        }
        let c = self.s[self.i];
        self.i += 1;
        match c {
            '.' => N::Any,
            '^' => N::Bol,
            '$' => N::Eol,
            '[' => {
                let neg = self.eat("^");
                let mut v = vec![];
                let mut first = true;
                loop {
                    let c = self.s[self.i];
                    if c == ']' && !first {
                        self.i += 1;
                        break;
                    }
                    first = false;
                    self.i += 1;
                    let lo = if c == '\\' {
                        match self.esc() {
                            Ok(i) => {
                                v.push(i);
                                continue;
                            }
                            Err(c) => c,
                        }
                    } else {
                        c
                    };
                    if self.peek() == Some('-') && self.s[self.i + 1] != ']' {
                        self.i += 1;
                        let mut hi = self.s[self.i];
                        self.i += 1;
                        if hi == '\\' {
                            hi = self.esc().unwrap_err();
                        }
                        v.push(Item::Range(lo, hi));
                    } else {
                        v.push(Item::Range(lo, lo));
                    }
                }
                N::Set(v, neg)
            }
            '\\' => {
                if self.eat("A") {
                    return N::BeginText;
                }
                if self.eat("z") {
                    return N::EndText;
                }
                match self.esc() {
                    Ok(i) => N::Set(vec![i], false),
                    Err(c) => N::Ch(c),
                }
            }
            c => N::Ch(c),
        }
    }
}

pub type Caps = Vec<Option<(usize, usize)>>;

impl Rx {
    /// flags: 's' dot matches newline, 'm' ^ and $ match at line ends
    pub fn new(p: &str, flags: &str) -> Rx {
        let s: Vec<char> = p.chars().collect();
        let mut q = P { s: &s, i: 0, g: 0 };
        let n = q.alt();
        assert!(q.i == s.len(), "bad reference pattern");
        Rx { n, groups: q.g + 1, multi: flags.contains('m'), dotall: flags.contains('s') }
    }
    fn m(&self, n: &N, t: &[char], i: usize, c: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match n {
            N::Ch(x) => i < t.len() && t[i] == *x && k(i + 1, c),
            N::Any => i < t.len() && (self.dotall || t[i] != '\n') && k(i + 1, c),
            N::Set(v, neg) => i < t.len() && (v.iter().any(|x| item(x, t[i])) != *neg) && k(i + 1, c),
            N::Bol => (i == 0 || (self.multi && t[i - 1] == '\n')) && k(i, c),
            N::Eol => (i == t.len() || (self.multi && t[i] == '\n')) && k(i, c),
            N::BeginText => i == 0 && k(i, c),
            N::EndText => i == t.len() && k(i, c),
            N::Group(n, None) => self.m(n, t, i, c, k),
            N::Group(n, Some(g)) => {
                let old = c[*g];
                if self.m(n, t, i, c, &mut |j, c| {
                    let o = c[*g];
                    c[*g] = Some((i, j));
                    k(j, c) || {
                        c[*g] = o;
                        false
                    }
                }) {
                    return true;
                }
                c[*g] = old;
                false
            }
            N::Cat(v) => self.seq(v, t, i, c, k),
            N::Alt(v) => v.iter().any(|n| self.m(n, t, i, c, k)),
            N::Rep(n, lo, hi, greedy) => self.rep(n, *lo, *hi, *greedy, t, i, c, k),
            N::Look(n, true, neg) => {
                let mut c2 = c.clone();
                let r = self.m(n, t, i, &mut c2, &mut |_, _| true);
                (r != *neg) && k(i, c)
            }
            N::Look(n, false, neg) => {
                let r = i > 0 && {
                    let mut c2 = c.clone();
                    self.m(n, t, i - 1, &mut c2, &mut |j, _| j == i)
                };
                (r != *neg) && k(i, c)
            }
        }
    }
    fn seq(&self, v: &[N], t: &[char], i: usize, c: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match v.split_first() {
            None => k(i, c),
            Some((n, rest)) => self.m(n, t, i, c, &mut |j, c| self.seq(rest, t, j, c, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(&self, n: &N, lo: usize, hi: usize, greedy: bool, t: &[char], i: usize, c: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        if lo > 0 {
            return self.m(n, t, i, c, &mut |j, c| self.rep(n, lo - 1, if hi == usize::MAX { hi } else { hi - 1 }, greedy, t, j, c, k));
        }
        if hi == 0 {
            return k(i, c);
        }
        let h2 = if hi == usize::MAX { hi } else { hi - 1 };
        if greedy {
            if self.m(n, t, i, c, &mut |j, c| j > i && self.rep(n, 0, h2, greedy, t, j, c, k)) {
                return true;
            }
            k(i, c)
        } else {
            if k(i, c) {
                return true;
            }
            self.m(n, t, i, c, &mut |j, c| j > i && self.rep(n, 0, h2, greedy, t, j, c, k))
        }
    }
    pub fn at(&self, t: &[char], i: usize) -> Option<Caps> {
        let mut c: Caps = vec![None; self.groups];
        let mut end = 0;
        let mut fin: Caps = vec![];
        if self.m(&self.n, t, i, &mut c, &mut |j, c| {
            end = j;
            fin = c.clone();
            true
        }) {
            fin[0] = Some((i, end));
            return Some(fin);
        }
        None
    }
    /// leftmost match at or after `from`
    pub fn find(&self, t: &[char], from: usize) -> Option<Caps> {
        (from..=t.len()).find_map(|i| self.at(t, i))
    }
    pub fn is_match(&self, t: &str) -> bool {
        let t: Vec<char> = t.chars().collect();
        self.find(&t, 0).is_some()
    }
    /// captures of a match of the whole text
    pub fn caps(&self, t: &str) -> Option<Vec<Option<String>>> {
        let t: Vec<char> = t.chars().collect();
        self.find(&t, 0).map(|c| strs(&t, &c))
    }
    /// replaces every match, left to right
    pub fn gsub(&self, s: &str, mut f: impl FnMut(&M<'_>, &mut String)) -> String {
        let t: Vec<char> = s.chars().collect();
        let mut out = String::with_capacity(s.len() + 32);
        let (mut last, mut i) = (0, 0);
        while i <= t.len() {
            let Some(c) = self.find(&t, i) else { break };
            let (a, b) = c[0].unwrap();
            out.extend(&t[last..a]);
            let m = M { t: &t, c: &c };
            f(&m, &mut out);
            last = b;
            if b == a {
                if b < t.len() {
                    out.push(t[b]);
                }
                i = b + 1;
                last = i.min(t.len());
            } else {
                i = b;
            }
        }
        out.extend(&t[last.min(t.len())..]);
        out
    }
}
fn strs(t: &[char], c: &Caps) -> Vec<Option<String>> {
    c.iter().map(|x| x.map(|(a, b)| t[a..b].iter().collect())).collect()
}

pub struct M<'a> {
    pub t: &'a [char],
    pub c: &'a Caps,
}
impl M<'_> {
    pub fn get(&self, g: usize) -> Option<String> {
        self.c[g].map(|(a, b)| self.t[a..b].iter().collect())
    }
    pub fn s(&self, g: usize) -> String {
        self.get(g).unwrap_or_default()
    }
    /// whether the match begins with the character
    pub fn starts(&self, c: char) -> bool {
        let (a, b) = self.c[0].unwrap();
        a < b && self.t[a] == c
    }
    /// the whole match
    pub fn all(&self) -> String {
        self.s(0)
    }
    /// the match without its first character
    pub fn tail(&self) -> String {
        let (a, b) = self.c[0].unwrap();
        self.t[a + 1..b].iter().collect()
    }
}

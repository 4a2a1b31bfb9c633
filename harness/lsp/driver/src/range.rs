//! Programs of which it is known where their statements are.
use vfcommon::{Rng, Value, json};

/// A statement: offsets of characters, see Ranges.tla.
#[derive(Clone, Default)]
pub struct Item {
    pub full: (usize, usize),
    pub trim: (usize, usize),
    pub outer: (usize, usize),
    pub lists: Vec<List>,
    /// There is a comment in front of it that says so.
    pub skipped: bool,
}
#[derive(Clone, Default)]
pub struct List {
    pub id: usize,
    pub items: Vec<Item>,
}
impl List {
    pub fn json(&self) -> Value {
        let items: Vec<Value> = self
            .items
            .iter()
            .map(|i| {
                json!({"full": [i.full.0, i.full.1], "trim": [i.trim.0, i.trim.1], "outer": [i.outer.0, i.outer.1], "skipped": i.skipped,
                       "lists": i.lists.iter().map(List::json).collect::<Vec<_>>()})
            })
            .collect();
        json!({"id": self.id, "items": items})
    }
    pub fn all<'a>(&'a self, out: &mut Vec<&'a List>) {
        out.push(self);
        self.items.iter().flat_map(|i| &i.lists).for_each(|l| l.all(out));
    }
}

const SIMPLE: &[&str] = &["1+1", "x=1", "f(a,b)", "x <- 2", "foo( a )", "\"é𐐀\"+1", "-1", "a[1 ]", "T", "x|>f()", "!y", "function(x)x", "if(a) b"];
const COMMENTS: &[&str] = &["# c", "#é", "#' doc", "#", "# fmt: skip"];
const SKIPS: &[&str] = &["# fmt: skip file", "#fmt:skip file", "# Generated by: hand"];
/// What is in front of, between and behind lists.
const BLOCKS: &[&[&str]] = &[
    &["", ""],
    &["", ""],
    &["f<-function(x)", ""],
    &["if(a)", ""],
    &["if(a) ", " else ", ""],
    &["g(", ",1)"],
    &["while (i<3) ", ""],
    &["x=local(", ")"],
    &["a(b(", "))"],
    &["function() ", ""],
    &["tryCatch(", ",error=function(e)", ")"],
];

#[derive(Default)]
pub struct Gen {
    pub text: Vec<char>,
    lists: usize,
    /// the end of the last token, or the comment behind it
    edge: usize,
}
impl Gen {
    fn put(&mut self, s: &str) {
        self.text.extend(s.chars());
    }
    fn spaces(&mut self, n: usize) {
        self.text.extend(std::iter::repeat_n(' ', n));
    }
    /// A program: every statement has its own lines.
    pub fn program(rng: &mut Rng) -> (Vec<char>, List) {
        let mut g = Gen::default();
        let depth = *rng.pick(&[1, 2, 2, 2, 2, 3, 4, 5]);
        let mut list = g.list(rng, depth, 0, true);
        let mut end = false;
        if !list.items.is_empty() && rng.chance(1, 3) {
            for _ in 0..rng.below(3) {
                g.put("\n");
            }
            if rng.chance(1, 3) {
                g.put("# end\n");
                end = true;
            }
        }
        if let Some(last) = list.items.last_mut()
            && !end
        {
            // without anything else in the program, they are at its end
            last.full.1 = last.outer.1;
        }
        (g.text, list)
    }
    /// Statements, each on lines of its own. The text ends with a line feed afterwards, if there were any.
    fn list(&mut self, rng: &mut Rng, depth: usize, indent: usize, top: bool) -> List {
        let id = self.lists;
        self.lists += 1;
        let mut items = vec![];
        // the deeper, the narrower
        let most = if depth > 2 { 2 } else if top { 4 } else { 3 };
        for _ in 0..rng.range(if top { 0 } else { 1 }, most) {
            for _ in 0..rng.below(5).saturating_sub(2) {
                if rng.chance(1, 4) {
                    self.spaces(2);
                }
                self.put("\n");
            }
            let indent = if rng.chance(1, 6) { rng.below(7) } else { indent };
            let mut from = None;
            let mut skip = false;
            let mut skipped = false;
            for n in 0..rng.below(6).saturating_sub(3) {
                self.spaces(indent);
                from.get_or_insert(self.text.len());
                let c = if rng.chance(1, 12) { *rng.pick(SKIPS) } else { *rng.pick(COMMENTS) };
                skipped |= SKIPS.contains(&c) && (n == 0 || !c.contains("Gen"));
                skip |= c == "# fmt: skip";
                self.put(c);
                self.put("\n");
            }
            self.spaces(indent);
            let full = self.edge;
            // what is left as it is has one line only
            let mut item = if skip { self.item(rng, 0, indent) } else { self.item(rng, depth, indent) };
            // spaces at the end of a line belong to the statement, or its comment
            let comment = rng.chance(1, 8);
            if comment {
                self.put(*rng.pick(&["  # t", " #", "# t  "]));
            }
            if rng.chance(1, 6) {
                self.put(" ");
            }
            if comment {
                item.outer.1 = self.text.len();
            }
            self.edge = self.text.len();
            item.full = (full, self.edge);
            item.skipped = skipped;
            item.outer.0 = from.unwrap_or(item.trim.0);
            self.put("\n");
            items.push(item);
        }
        List { id, items }
    }
    /// A statement, in which only `trim`, the end of `outer` and `lists` are known.
    fn item(&mut self, rng: &mut Rng, depth: usize, indent: usize) -> Item {
        let start = self.text.len();
        let mut lists = vec![];
        if depth > 0 && (rng.chance(1, 2) || depth > 2) {
            let parts = *rng.pick(BLOCKS);
            for (n, part) in parts.iter().enumerate() {
                self.put(part);
                if n + 1 == parts.len() {
                    break;
                }
                self.put("{");
                lists.push(self.body(rng, depth - 1, indent));
                self.put("}");
            }
        } else {
            let simple = *rng.pick(SIMPLE);
            self.put(simple);
        }
        let end = self.text.len();
        Item { full: (0, 0), trim: (start, end), outer: (start, end), lists, skipped: false }
    }
    fn body(&mut self, rng: &mut Rng, depth: usize, indent: usize) -> List {
        match rng.below(6) {
            0 => {
                if rng.chance(1, 2) {
                    self.put(" ");
                }
                let id = self.lists;
                self.lists += 1;
                List { id, items: vec![] }
            }
            1 => {
                // all on one line
                let full = self.text.len();
                if rng.chance(1, 2) {
                    self.put(" ");
                }
                let id = self.lists;
                self.lists += 1;
                let mut item = self.item(rng, 0, indent);
                item.full = (full, self.text.len());
                if rng.chance(1, 2) {
                    self.put(" ");
                }
                List { id, items: vec![item] }
            }
            _ => {
                if rng.chance(1, 8) {
                    self.put(" # open");
                }
                self.edge = self.text.len();
                self.put("\n");
                let list = self.list(rng, depth, indent + 2, false);
                if rng.chance(1, 6) {
                    self.put("# last\n");
                }
                self.spaces(indent);
                list
            }
        }
    }
}

/// A selection: mostly of whole lines or whole statements.
pub fn selection(rng: &mut Rng, text: &[char], list: &List) -> (usize, usize) {
    let mut places: Vec<usize> = vec![0, text.len()];
    let mut lists = vec![];
    list.all(&mut lists);
    for item in lists.iter().flat_map(|l| &l.items) {
        for (a, b) in [item.full, item.trim, item.outer] {
            places.extend([a, b]);
        }
    }
    // or within one of the lists
    if rng.chance(1, 3) {
        let mine = rng.pick(&lists);
        if !mine.items.is_empty() {
            let (a, b) = (rng.pick(&mine.items), rng.pick(&mine.items));
            let (a, b) = (*rng.pick(&[a.trim.0, a.trim.1, a.outer.0, a.outer.1]), *rng.pick(&[b.trim.0, b.trim.1, b.outer.0, b.outer.1]));
            return (a.min(b), a.max(b));
        }
    }
    let one = |rng: &mut Rng| if rng.chance(2, 3) { *rng.pick(&places) } else { rng.below(text.len() + 1) };
    let (a, b) = (one(rng), one(rng));
    let (a, b) = if rng.chance(1, 6) { (a, a) } else { (a, b) };
    // whole lines, up to the start of the next
    if rng.chance(1, 6) {
        let a = text[..a.min(b)].iter().rposition(|c| *c == '\n').map_or(0, |i| i + 1);
        let b = text[b.max(a)..].iter().position(|c| *c == '\n').map_or(text.len(), |i| b.max(a) + i + 1);
        return (a, b);
    }
    (a.min(b), a.max(b))
}

//! Reference model: an ordered forest with explicit child lists.

#[derive(Clone, Debug, PartialEq)]
pub struct MNode {
    pub alive: bool,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub serial: u32,
    pub val: u32,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub nodes: Vec<MNode>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Where {
    FirstChild,
    LastChild,
    Prev,
    Next,
}
pub const WHERES: [Where; 4] = [Where::FirstChild, Where::LastChild, Where::Prev, Where::Next];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SErr {
    Loop,
    Unorderable,
    NoParent,
}

impl Model {
    pub fn alive(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].alive).collect()
    }
    pub fn dead(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| !self.nodes[*i].alive).collect()
    }
    pub fn nalive(&self) -> usize {
        self.nodes.iter().filter(|n| n.alive).count()
    }
    pub fn parent(&self, n: usize) -> Option<usize> {
        self.nodes[n].parent
    }
    pub fn children(&self, n: usize) -> &[usize] {
        &self.nodes[n].children
    }
    pub fn index(&self, n: usize) -> usize {
        match self.nodes[n].parent {
            Some(p) => self.nodes[p].children.iter().position(|c| *c == n).unwrap(),
            None => 0,
        }
    }
    pub fn prev(&self, n: usize) -> Option<usize> {
        let p = self.nodes[n].parent?;
        let i = self.index(n);
        (i > 0).then(|| self.nodes[p].children[i - 1])
    }
    pub fn next(&self, n: usize) -> Option<usize> {
        let p = self.nodes[n].parent?;
        self.nodes[p].children.get(self.index(n) + 1).copied()
    }
    pub fn root(&self, mut n: usize) -> usize {
        while let Some(p) = self.nodes[n].parent {
            n = p;
        }
        n
    }
    /// `d` is `a` or its descendant.
    pub fn is_in(&self, mut d: usize, a: usize) -> bool {
        loop {
            if d == a {
                return true;
            }
            match self.nodes[d].parent {
                Some(p) => d = p,
                None => return false,
            }
        }
    }
    pub fn roots(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].alive && self.nodes[*i].parent.is_none()).collect()
    }
    /// Root of each alive node's tree, in linear time.
    pub fn root_table(&self) -> Vec<usize> {
        let mut t = vec![usize::MAX; self.nodes.len()];
        for r in self.roots() {
            for n in self.preorder(r) {
                t[n] = r;
            }
        }
        t
    }
    pub fn preorder(&self, r: usize) -> Vec<usize> {
        let mut out = Vec::new();
        let mut st = vec![r];
        while let Some(n) = st.pop() {
            out.push(n);
            st.extend(self.nodes[n].children.iter().rev());
        }
        out
    }
    pub fn postorder(&self, r: usize) -> Vec<usize> {
        self.events(r).into_iter().filter(|e| !e.0).map(|e| e.1).collect()
    }
    /// Depth-first events: (is_open, node, depth).
    pub fn events(&self, r: usize) -> Vec<(bool, usize, usize)> {
        let mut out = vec![(true, r, 0)];
        let mut st: Vec<(usize, usize)> = vec![(r, 0)];
        while let Some((n, i)) = st.last_mut() {
            if let Some(c) = self.nodes[*n].children.get(*i).copied() {
                *i += 1;
                out.push((true, c, st.len()));
                st.push((c, 0));
            } else {
                out.push((false, *n, st.len() - 1));
                st.pop();
            }
        }
        out
    }
    pub fn levels(&self, r: usize) -> Vec<(usize, usize)> {
        let mut out = Vec::new();
        let mut cur = vec![r];
        let mut d = 0;
        while !cur.is_empty() {
            let mut nxt = Vec::new();
            for n in cur {
                out.push((n, d));
                nxt.extend_from_slice(&self.nodes[n].children);
            }
            cur = nxt;
            d += 1;
        }
        out
    }
    pub fn ancestors(&self, n: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut c = self.nodes[n].parent;
        while let Some(p) = c {
            out.push(p);
            c = self.nodes[p].parent;
        }
        out
    }
    pub fn siblings(&self, n: usize) -> Vec<usize> {
        match self.nodes[n].parent {
            Some(p) => self.nodes[p].children.clone(),
            None => vec![n],
        }
    }

    pub fn add_root(&mut self, serial: u32, val: u32) -> usize {
        self.nodes.push(MNode { alive: true, parent: None, children: vec![], serial, val });
        self.nodes.len() - 1
    }
    /// Errors that inserting `n` at `w` of `a` deserves. Empty: it is accepted.
    pub fn insert_errors(&self, n: usize, a: usize, w: Where) -> Vec<SErr> {
        let mut e = Vec::new();
        match w {
            Where::FirstChild | Where::LastChild => {
                if self.is_in(a, n) {
                    e.push(SErr::Loop);
                }
            }
            Where::Prev | Where::Next => {
                if n == a {
                    e.push(SErr::Unorderable);
                } else if self.is_in(a, n) {
                    e.push(SErr::Loop);
                }
                if self.nodes[a].parent.is_none() {
                    e.push(SErr::NoParent);
                }
            }
        }
        e
    }
    pub fn create_allowed(&self, a: usize, w: Where) -> bool {
        matches!(w, Where::FirstChild | Where::LastChild) || self.nodes[a].parent.is_some()
    }
    pub fn detach(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].parent.take() {
            self.nodes[p].children.retain(|c| *c != n);
        }
    }
    /// Whether the request names the place that `n` already has.
    pub fn is_noop(&self, n: usize, a: usize, w: Where) -> bool {
        match w {
            Where::FirstChild => self.nodes[a].children.first() == Some(&n),
            Where::LastChild => self.nodes[a].children.last() == Some(&n),
            Where::Prev => self.next(n) == Some(a),
            Where::Next => self.prev(n) == Some(a),
        }
    }
    pub fn insert(&mut self, n: usize, a: usize, w: Where) {
        self.detach(n);
        let (p, i) = match w {
            Where::FirstChild => (a, 0),
            Where::LastChild => (a, self.nodes[a].children.len()),
            Where::Prev => (self.nodes[a].parent.unwrap(), self.index(a)),
            Where::Next => (self.nodes[a].parent.unwrap(), self.index(a) + 1),
        };
        self.nodes[p].children.insert(i, n);
        self.nodes[n].parent = Some(p);
    }
    pub fn detach_single_ok(&self, n: usize) -> bool {
        self.nodes[n].parent.is_some() || self.nodes[n].children.len() < 2
    }
    pub fn detach_single(&mut self, n: usize) {
        let ch = std::mem::take(&mut self.nodes[n].children);
        match self.nodes[n].parent.take() {
            Some(p) => {
                let i = self.nodes[p].children.iter().position(|c| *c == n).unwrap();
                for c in &ch {
                    self.nodes[*c].parent = Some(p);
                }
                self.nodes[p].children.splice(i..=i, ch);
            }
            None => {
                for c in ch {
                    self.nodes[c].parent = None;
                }
            }
        }
    }
    /// Kills a node that is a leaf or whose children are already dead.
    pub fn kill(&mut self, n: usize) {
        self.detach(n);
        let ch = std::mem::take(&mut self.nodes[n].children);
        for c in ch {
            self.nodes[c].parent = None;
        }
        self.nodes[n].alive = false;
    }
    pub fn remove(&mut self, n: usize) -> Vec<usize> {
        let post = self.postorder(n);
        self.detach(n);
        for c in &post {
            self.nodes[*c].parent = None;
            self.nodes[*c].children.clear();
            self.nodes[*c].alive = false;
        }
        post
    }
}

//! A small JSON reader (no dependencies, to keep the harness build short).

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let v = val(b, &mut i);
        ws(b, &mut i);
        assert!(i == b.len(), "trailing JSON at {i}: {s}");
        v
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("not an int: {self:?}"),
        }
    }
    pub fn boolean(&self) -> bool {
        match self {
            J::Bool(i) => *i,
            _ => panic!("not a bool: {self:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            // TLC prints the empty function/record for an empty sequence in some places
            J::Obj(v) if v.is_empty() => &[],
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|j| j.int()).collect()
    }
    pub fn points(&self) -> Vec<Vec<i64>> {
        self.arr().iter().map(|j| j.ints()).collect()
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn string(b: &[u8], i: &mut usize) -> String {
    assert!(b[*i] == b'"');
    *i += 1;
    let mut out = Vec::new();
    while b[*i] != b'"' {
        if b[*i] == b'\\' {
            *i += 1;
            out.push(match b[*i] {
                b'n' => b'\n',
                b't' => b'\t',
                c => c,
            });
        } else {
            out.push(b[*i]);
        }
        *i += 1;
    }
    *i += 1;
    String::from_utf8(out).unwrap()
}

fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = string(b, i);
                ws(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                let x = val(b, i);
                v.push((k, x));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::Arr(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(val(b, i));
            }
        }
        b'"' => J::Str(string(b, i)),
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let s = *i;
            *i += 1;
            while *i < b.len() && (b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::Int(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
        }
    }
}

//! Stand-in for `difference`: a line diff by longest common subsequence (display only).
pub enum Difference { Same(String), Add(String), Rem(String) }
pub struct Changeset { pub diffs: Vec<Difference>, pub split: String, pub distance: i32 }
impl Changeset {
    pub fn new(a: &str, b: &str, split: &str) -> Changeset {
        let x: Vec<&str> = a.split(split).collect();
        let y: Vec<&str> = b.split(split).collect();
        let mut t = vec![vec![0usize; y.len() + 1]; x.len() + 1];
        for i in (0..x.len()).rev() { for j in (0..y.len()).rev() {
            t[i][j] = if x[i] == y[j] { t[i+1][j+1] + 1 } else { t[i+1][j].max(t[i][j+1]) };
        } }
        let (mut i, mut j, mut distance) = (0, 0, 0);
        let mut diffs = vec![];
        while i < x.len() || j < y.len() {
            if i < x.len() && j < y.len() && x[i] == y[j] { diffs.push(Difference::Same(x[i].into())); i += 1; j += 1; }
            else if j >= y.len() || (i < x.len() && t[i+1][j] >= t[i][j+1]) { diffs.push(Difference::Rem(x[i].into())); i += 1; distance += 1; }
            else { diffs.push(Difference::Add(y[j].into())); j += 1; distance += 1; }
        }
        Changeset { diffs, split: split.to_string(), distance }
    }
}

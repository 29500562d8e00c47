// `match slice { [a] => .., [a, b] => .., _ => .. }` as a match on an enum with the same cases.
verus! {
pub enum SliceView<'a, T> { Nil, One(&'a T), Two(&'a T, &'a T), More }
pub fn slice_view<'a, T>(s: &'a [T]) -> (r: SliceView<'a, T>)
    ensures match r { SliceView::Nil => s@.len() == 0, SliceView::One(a) => s@.len() == 1 && s@[0] == *a, SliceView::Two(a, b) => s@.len() == 2 && s@[0] == *a && s@[1] == *b, SliceView::More => s@.len() > 2 }
{ if s.len() == 0 { SliceView::Nil } else if s.len() == 1 { SliceView::One(&s[0]) } else if s.len() == 2 { SliceView::Two(&s[0], &s[1]) } else { SliceView::More } }
}

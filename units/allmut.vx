#[verifier::external_body]
fn vx_all_mut<T>(v: &mut Vec<T>) -> (r: &mut [T])
    ensures r@ == old(v)@, final(v)@ == final(r)@, final(r)@.len() == r@.len()
{ &mut v[..] }

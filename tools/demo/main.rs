mod h;
use h::*;
fn main() {
    let t = tokenizer("東京,0,0,10,d\n", MATRIX, CHAR, UNK);
    assert_eq!(surfaces(&t, "東京"), ["東京"]);
}

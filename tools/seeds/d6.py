BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, pack='pack'): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, pack=pack))
bug('C28-long-array','C28',[('utils.rs','        for item in data {\n','        for item in data.iter().take(u8::max_value() as usize) {\n')],
 'arrays of more than 255 elements','long probability vectors are written without their last elements, and cannot be read back',
'''
use rstat::SimplexVector;
fn trip<const N: usize>() -> bool {
    let mut v = [0.0; N];
    for i in 0..N { v[i] = 1.0 / N as f64; }
    let s = serde_json::to_string(&SimplexVector::<N>::new_unchecked(v)).unwrap();
    match serde_json::from_str::<SimplexVector<N>>(&s) {
        Ok(w) => format!("{:?}", w) == format!("{:?}", SimplexVector::<N>::new_unchecked(v)),
        Err(_) => false,
    }
}
fn main() {
    assert!(trip::<3>() && trip::<40>());
    assert!(trip::<300>());
}
''','pack28')
bug('C28-normalised','C28',[('probability.rs','''    serde(crate = "serde_crate")
)]
pub struct SimplexVector<const K: usize>(
    #[cfg_attr(
        feature = "serde",
        serde(with = "crate::utils::serde_arrays")
    )]
    [f64; K]
);
''','''    serde(crate = "serde_crate")
)]
pub struct SimplexVector<const K: usize>(
    #[cfg_attr(
        feature = "serde",
        serde(serialize_with = "crate::utils::serde_arrays::serialize", deserialize_with = "normalised")
    )]
    [f64; K]
);

#[cfg(feature = "serde")]
fn normalised<'de, D: serde_crate::Deserializer<'de>, const K: usize>(de: D) -> Result<[f64; K], D::Error> {
    let mut ps: [f64; K] = crate::utils::serde_arrays::deserialize(de)?;
    let total: f64 = ps.iter().sum();

    if (total - 1.0).abs() < 1e-6 {
        ps.iter_mut().for_each(|p| *p /= total);
    }

    Ok(ps)
}
''')],
 'weights whose sum is one only up to rounding','probability vectors come back with other last digits',
'''
use rstat::SimplexVector;
fn trip(v: [f64; 3]) -> bool {
    let s = serde_json::to_string(&SimplexVector::new(v).unwrap()).unwrap();
    let w: SimplexVector<3> = serde_json::from_str(&s).unwrap();
    format!("{:?}", w) == format!("{:?}", SimplexVector::new(v).unwrap())
}
fn main() {
    assert!(trip([0.25, 0.25, 0.5]));
    assert!(trip([0.1, 0.7, 0.2 + 5e-10]) || SimplexVector::new([0.1, 0.7, 0.2 + 5e-10]).is_err());
    assert!(trip([0.3, 0.6, 0.1 - 2e-16]));
    assert!(trip([0.7, 0.2, 0.1]));
    let mut x = 0.05;
    while x < 0.5 { let y = x / 3.0; if SimplexVector::new([x, y, 1.0 - x - y]).is_ok() { assert!(trip([x, y, 1.0 - x - y])); } x += 0.013; }
}
''','pack28')

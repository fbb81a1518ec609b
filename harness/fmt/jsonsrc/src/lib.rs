//! JSON decoding from every kind of source.
use dynv::*;

/// Decode from a string, checking that the string version agrees with the
/// other constructor.
pub fn from_str(ty: &Ty, s: &str) -> R<Val> {
    with_ty(ty, || dynv::musli::json::from_str::<De>(s)).map(|d| d.0).map_err(|e| e.to_string())
}

/// Decode from a moving slice, giving how much of it is used.
pub fn from_moving_slice(ty: &Ty, s: &[u8]) -> R<(Val, usize)> {
    let mut r = s;
    let v = with_ty(ty, || dynv::musli::json::Encoding::new().decode::<_, De>(&mut r)).map_err(|e| e.to_string())?;
    Ok((v.0, s.len() - r.len()))
}

/// Decode from a moving string, giving how much of it is used.
pub fn from_moving_str(ty: &Ty, s: &str) -> R<(Val, usize)> {
    let mut r = s;
    let v = with_ty(ty, || dynv::musli::json::Encoding::new().decode::<_, De>(&mut r));
    // Whatever happened, what remains has to be a string.
    if std::str::from_utf8(r.as_bytes()).is_err() {
        return Err(String::from("INVALID: the string which remains is not UTF-8"));
    }
    let v = v.map_err(|e| e.to_string())?;
    Ok((v.0, s.len() - r.len()))
}

//! Entry points for the analyzer: monomorphic wrappers around the public API of the three crates.
//! Nothing here is ever run; the analyzer interprets its MIR abstractly.
#![no_std]
#![allow(clippy::missing_safety_doc, irrefutable_let_patterns)]
use core::mem::{ManuallyDrop, MaybeUninit};
use rand_core::{CryptoRng, Error, RngCore};

/// Stand-in for the caller's generator. Its methods are modelled by the analyzer.
pub struct ModelRng {
    pub x: u64,
}
impl RngCore for ModelRng {
    fn next_u32(&mut self) -> u32 {
        loop {}
    }
    fn next_u64(&mut self) -> u64 {
        loop {}
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        loop {}
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), Error> {
        loop {}
    }
}
impl CryptoRng for ModelRng {}

/// a type that wipes itself on drop
pub struct Wiped(pub u64);
impl Drop for Wiped {
    fn drop(&mut self) {
        zeroize::Zeroize::zeroize(&mut self.0)
    }
}
impl zeroize::ZeroizeOnDrop for Wiped {}
impl Default for Wiped {
    fn default() -> Self {
        Wiped(0)
    }
}

macro_rules! mlkem {
    ($m:ident, $k:ident) => {
        pub mod $m {
            use super::*;
            use ::kem::{Decapsulate, Encapsulate};
            use ml_kem::*;
            pub type K = $k;
            pub type Dk = <K as KemCore>::DecapsulationKey;
            pub type Ek = <K as KemCore>::EncapsulationKey;
            pub type Ct = Ciphertext<K>;
            pub type Ss = SharedKey<K>;

            #[cfg(feature = "det")]
            pub fn keygen_det(d: &B32, z: &B32, dko: &mut Encoded<Dk>, eko: &mut Encoded<Ek>, dkeko: &mut Encoded<Ek>) {
                let (dk, ek) = K::generate_deterministic(d, z);
                *dko = dk.as_bytes();
                *eko = ek.as_bytes();
                *dkeko = dk.encapsulation_key().as_bytes();
            }
            pub fn keygen(rng: &mut ModelRng, dko: &mut Encoded<Dk>, eko: &mut Encoded<Ek>, dkeko: &mut Encoded<Ek>) {
                let (dk, ek) = K::generate(rng);
                *dko = dk.as_bytes();
                *eko = ek.as_bytes();
                *dkeko = dk.encapsulation_key().as_bytes();
            }
            #[cfg(feature = "det")]
            pub fn keygen_obj(d: &B32, z: &B32) -> (Dk, Ek) {
                K::generate_deterministic(d, z)
            }
            #[cfg(feature = "det")]
            pub fn dk_obj(d: &B32, z: &B32) -> Dk {
                K::generate_deterministic(d, z).0
            }
            #[cfg(feature = "det")]
            pub fn encaps_det(ek: &Encoded<Ek>, m: &B32, ct: &mut Ct, ss: &mut Ss) -> bool {
                let ek = Ek::from_bytes(ek);
                match ek.encapsulate_deterministic(m) {
                    Ok((c, s)) => {
                        *ct = c;
                        *ss = s;
                        true
                    }
                    Err(_) => false,
                }
            }
            pub fn encaps(ek: &Encoded<Ek>, rng: &mut ModelRng, ct: &mut Ct, ss: &mut Ss) -> bool {
                let ek = Ek::from_bytes(ek);
                match ek.encapsulate(rng) {
                    Ok((c, s)) => {
                        *ct = c;
                        *ss = s;
                        true
                    }
                    Err(_) => false,
                }
            }
            pub fn decaps(dk: &Encoded<Dk>, ct: &Ct, ss: &mut Ss) -> bool {
                let dk = Dk::from_bytes(dk);
                match dk.decapsulate(ct) {
                    Ok(s) => {
                        *ss = s;
                        true
                    }
                    Err(_) => false,
                }
            }
            pub fn dk_roundtrip(dk: &Encoded<Dk>, dko: &mut Encoded<Dk>, eko: &mut Encoded<Ek>) {
                let dk = Dk::from_bytes(dk);
                *dko = dk.as_bytes();
                *eko = dk.encapsulation_key().as_bytes();
            }
            pub fn ek_roundtrip(ek: &Encoded<Ek>, eko: &mut Encoded<Ek>) {
                *eko = Ek::from_bytes(ek).as_bytes();
            }
            pub fn dk_parse(dk: &Encoded<Dk>) -> Dk {
                Dk::from_bytes(dk)
            }
            pub fn ek_parse(ek: &Encoded<Ek>) -> Ek {
                Ek::from_bytes(ek)
            }
            pub fn dk_encode(dk: &Dk, dko: &mut Encoded<Dk>) {
                *dko = dk.as_bytes();
            }
            pub fn ek_encode(ek: &Ek, eko: &mut Encoded<Ek>) {
                *eko = ek.as_bytes();
            }
            pub fn dk_encaps_key<'a>(dk: &'a Dk) -> &'a Ek {
                dk.encapsulation_key()
            }
            pub fn dk_decaps(dk: &Dk, ct: &Ct, ss: &mut Ss) {
                if let Ok(s) = dk.decapsulate(ct) {
                    *ss = s;
                }
            }
            pub fn ek_encaps(ek: &Ek, rng: &mut ModelRng, ct: &mut Ct, ss: &mut Ss) {
                if let Ok((c, s)) = ek.encapsulate(rng) {
                    *ct = c;
                    *ss = s;
                }
            }
            pub fn dk_eq(a: &Dk, b: &Dk) -> bool {
                a == b
            }
            pub fn dk_ne(a: &Dk, b: &Dk) -> bool {
                a != b
            }
            pub fn ek_eq(a: &Ek, b: &Ek) -> bool {
                a == b
            }
            pub fn ek_ne(a: &Ek, b: &Ek) -> bool {
                a != b
            }
            pub fn dk_clone(a: &Dk) -> Dk {
                a.clone()
            }
            pub fn ek_clone(a: &Ek) -> Ek {
                a.clone()
            }
            pub unsafe fn dk_drop(a: &mut ManuallyDrop<Dk>) {
                ManuallyDrop::drop(a)
            }
            #[cfg(feature = "det")]
            pub fn pair_drop(d: &B32, z: &B32) {
                let _ = K::generate_deterministic(d, z);
            }
            pub fn clone_roundtrip(dk: &Encoded<Dk>, ct: &Ct, dko: &mut Encoded<Dk>) {
                let a = Dk::from_bytes(dk);
                *dko = a.clone().as_bytes();
                let _ = ct;
            }
        }
    };
}
mlkem!(mlkem512, MlKem512);
mlkem!(mlkem768, MlKem768);
mlkem!(mlkem1024, MlKem1024);

/// (k, eta1, eta2, du, dv, ek bytes, dk bytes, ct bytes, ss bytes) as the types say
pub mod sizes {
    use ml_kem::array::typenum::Unsigned;
    use ml_kem::*;
    use core::mem::size_of;
    macro_rules! row {
        ($k:ident, $p:ident) => {
            [
                <<$p as ParameterSet>::K as Unsigned>::USIZE,
                <<$p as ParameterSet>::Eta1 as Unsigned>::USIZE,
                <<$p as ParameterSet>::Eta2 as Unsigned>::USIZE,
                <<$p as ParameterSet>::Du as Unsigned>::USIZE,
                <<$p as ParameterSet>::Dv as Unsigned>::USIZE,
                size_of::<Encoded<<$k as KemCore>::EncapsulationKey>>(),
                size_of::<Encoded<<$k as KemCore>::DecapsulationKey>>(),
                size_of::<Ciphertext<$k>>(),
                size_of::<SharedKey<$k>>(),
                <<<$k as KemCore>::EncapsulationKey as EncodedSizeUser>::EncodedSize as Unsigned>::USIZE,
                <<<$k as KemCore>::DecapsulationKey as EncodedSizeUser>::EncodedSize as Unsigned>::USIZE,
                <<$k as KemCore>::CiphertextSize as Unsigned>::USIZE,
                <<$k as KemCore>::SharedKeySize as Unsigned>::USIZE,
            ]
        };
    }
    pub const MLKEM512: [usize; 13] = row!(MlKem512, MlKem512Params);
    pub const MLKEM768: [usize; 13] = row!(MlKem768, MlKem768Params);
    pub const MLKEM1024: [usize; 13] = row!(MlKem1024, MlKem1024Params);
    #[cfg(feature = "xw")]
    pub const XWING: [usize; 4] = [
        x_wing::ENCAPSULATION_KEY_SIZE,
        x_wing::DECAPSULATION_KEY_SIZE,
        x_wing::CIPHERTEXT_SIZE,
        size_of::<x_wing::SharedSecret>(),
    ];
    pub fn mlkem512() -> [usize; 13] {
        MLKEM512
    }
    pub fn mlkem768() -> [usize; 13] {
        MLKEM768
    }
    pub fn mlkem1024() -> [usize; 13] {
        MLKEM1024
    }
    #[cfg(feature = "xw")]
    pub fn xwing() -> [usize; 4] {
        XWING
    }
    /// the key types the public names denote, beside the ones spelt out
    pub fn same512(_: &<MlKem512 as KemCore>::DecapsulationKey, _: &kem::DecapsulationKey<MlKem512Params>) {}
    pub fn same768(_: &<MlKem768 as KemCore>::DecapsulationKey, _: &kem::DecapsulationKey<MlKem768Params>) {}
    pub fn same1024(_: &<MlKem1024 as KemCore>::DecapsulationKey, _: &kem::DecapsulationKey<MlKem1024Params>) {}
    pub fn ek512(_: &<MlKem512 as KemCore>::EncapsulationKey, _: &kem::EncapsulationKey<MlKem512Params>) {}
    pub fn ek768(_: &<MlKem768 as KemCore>::EncapsulationKey, _: &kem::EncapsulationKey<MlKem768Params>) {}
    pub fn ek1024(_: &<MlKem1024 as KemCore>::EncapsulationKey, _: &kem::EncapsulationKey<MlKem1024Params>) {}
    /// type-level lengths and element types for generic helpers
    pub fn lens(
        _: ml_kem::array::typenum::U2,
        _: ml_kem::array::typenum::U3,
        _: ml_kem::array::typenum::U6,
        _: super::Wiped,
        _: u16,
    ) {
    }
}

#[cfg(feature = "xw")]
pub mod xwing {
    use super::*;
    use ::kem::{Decapsulate, Encapsulate};
    use x_wing::*;
    type Dk = DecapsulationKey;
    type Ek = EncapsulationKey;

    pub fn keygen(rng: &mut ModelRng, dko: &mut [u8; 32], eko: &mut [u8; 1216]) {
        let (dk, ek) = generate_key_pair(rng);
        *dko = *dk.as_bytes();
        *eko = ek.as_bytes();
    }
    pub fn dk_generate(rng: &mut ModelRng, dko: &mut [u8; 32]) {
        let dk = Dk::generate(rng);
        *dko = *dk.as_bytes();
    }
    pub fn derive(sk: &[u8; 32], eko: &mut [u8; 1216]) {
        let dk = Dk::from(*sk);
        *eko = dk.encapsulation_key().as_bytes();
    }
    pub fn encaps(ek: &[u8; 1216], rng: &mut ModelRng, cto: &mut [u8; 1120], ss: &mut [u8; 32]) -> bool {
        let ek = Ek::from(ek);
        match ek.encapsulate(rng) {
            Ok((c, s)) => {
                *cto = c.as_bytes();
                *ss = s;
                true
            }
            Err(_) => false,
        }
    }
    pub fn decaps(sk: &[u8; 32], ct: &[u8; 1120], ss: &mut [u8; 32]) -> bool {
        let dk = Dk::from(*sk);
        let ct = Ciphertext::from(ct);
        match dk.decapsulate(&ct) {
            Ok(s) => {
                *ss = s;
                true
            }
            Err(_) => false,
        }
    }
    pub fn dk_roundtrip(sk: &[u8; 32], dko: &mut [u8; 32]) {
        let dk = Dk::from(*sk);
        *dko = *dk.as_bytes();
    }
    pub fn ek_roundtrip(ek: &[u8; 1216], eko: &mut [u8; 1216]) {
        *eko = Ek::from(ek).as_bytes();
    }
    pub fn ct_roundtrip(ct: &[u8; 1120], cto: &mut [u8; 1120]) {
        *cto = Ciphertext::from(ct).as_bytes();
    }
    pub fn ek_parse(ek: &[u8; 1216]) -> Ek {
        Ek::from(ek)
    }
    pub fn ct_parse(ct: &[u8; 1120]) -> Ciphertext {
        Ciphertext::from(ct)
    }
    pub fn dk_parse(sk: &[u8; 32]) -> Dk {
        Dk::from(*sk)
    }
    pub fn ek_encode(ek: &Ek, eko: &mut [u8; 1216]) {
        *eko = ek.as_bytes();
    }
    pub fn ct_encode(ct: &Ciphertext, cto: &mut [u8; 1120]) {
        *cto = ct.as_bytes();
    }
    pub fn dk_encode(dk: &Dk, dko: &mut [u8; 32]) {
        *dko = *dk.as_bytes();
    }
    pub fn dk_encapsulation_key(dk: &Dk) -> Ek {
        dk.encapsulation_key()
    }
    pub fn dk_decaps(dk: &Dk, ct: &Ciphertext, ss: &mut [u8; 32]) {
        if let Ok(s) = dk.decapsulate(ct) {
            *ss = s;
        }
    }
    pub fn ek_encaps(ek: &Ek, rng: &mut ModelRng, ss: &mut [u8; 32]) {
        if let Ok((_, s)) = ek.encapsulate(rng) {
            *ss = s;
        }
    }
    pub fn ek_eq(a: &Ek, b: &Ek) -> bool {
        a == b
    }
    pub fn ek_ne(a: &Ek, b: &Ek) -> bool {
        a != b
    }
    pub fn ct_eq(a: &Ciphertext, b: &Ciphertext) -> bool {
        a == b
    }
    pub fn ct_ne(a: &Ciphertext, b: &Ciphertext) -> bool {
        a != b
    }
    pub fn ek_clone(a: &Ek) -> Ek {
        a.clone()
    }
    pub fn ct_clone(a: &Ciphertext) -> Ciphertext {
        a.clone()
    }
    pub fn dk_clone(a: &Dk) -> Dk {
        a.clone()
    }
    pub unsafe fn dk_drop(a: &mut ManuallyDrop<Dk>) {
        ManuallyDrop::drop(a)
    }
    pub unsafe fn ct_drop(a: &mut ManuallyDrop<Ciphertext>) {
        ManuallyDrop::drop(a)
    }
    #[cfg(feature = "zero")]
    pub fn dk_zeroize(a: &mut Dk) {
        zeroize::Zeroize::zeroize(a)
    }
    #[cfg(feature = "zero")]
    pub fn ct_zeroize(a: &mut Ciphertext) {
        zeroize::Zeroize::zeroize(a)
    }
}

#[cfg(feature = "dh")]
macro_rules! dh {
    ($m:ident, $k:ty) => {
        pub mod $m {
            use super::*;
            use ::kem::{Decapsulate, Encapsulate};
            use dhkem::*;
            pub type K = $k;
            pub type Dk = <K as DhKem>::DecapsulatingKey;
            pub type Ek = <K as DhKem>::EncapsulatingKey;
            pub type Ct = <K as DhKem>::EncapsulatedKey;
            pub type Ss = <K as DhKem>::SharedSecret;
            pub fn keypair(rng: &mut ModelRng, dko: &mut MaybeUninit<Dk>, eko: &mut MaybeUninit<Ek>) {
                let (dk, ek) = K::random_keypair(rng);
                dko.write(dk);
                eko.write(ek);
            }
            pub fn encaps(ek: &Ek, rng: &mut ModelRng, cto: &mut MaybeUninit<Ct>, sso: &mut MaybeUninit<Ss>) -> bool {
                match ek.encapsulate(rng) {
                    Ok((ct, ss)) => {
                        cto.write(ct);
                        sso.write(ss);
                        true
                    }
                    Err(_) => false,
                }
            }
            pub fn decaps(dk: &Dk, ct: &Ct, sso: &mut MaybeUninit<Ss>) -> bool {
                match dk.decapsulate(ct) {
                    Ok(ss) => {
                        sso.write(ss);
                        true
                    }
                    Err(_) => false,
                }
            }
        }
    };
}
#[cfg(feature = "dh")]
dh!(dh_k256, dhkem::Secp256k1Kem);
#[cfg(feature = "dh")]
dh!(dh_p256, dhkem::NistP256Kem);
#[cfg(feature = "dh")]
dh!(dh_p384, dhkem::NistP384Kem);
#[cfg(feature = "dh")]
dh!(dh_p521, dhkem::NistP521Kem);
#[cfg(feature = "dh")]
dh!(dh_x25519, dhkem::X25519Kem);

/// An opaque key type: every operation on it is an unknown function of its arguments.
#[cfg(feature = "dh")]
pub mod opaque {
    use super::*;
    use core::cmp::Ordering;
    use core::hash::{Hash, Hasher};
    use dhkem::{DhDecapsulator, DhEncapsulator};
    use zeroize::Zeroize;

    pub struct Op(pub u64);
    impl Clone for Op {
        fn clone(&self) -> Self {
            loop {}
        }
    }
    impl PartialEq for Op {
        fn eq(&self, _: &Self) -> bool {
            loop {}
        }
    }
    impl Eq for Op {}
    impl PartialOrd for Op {
        fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
            loop {}
        }
    }
    impl Ord for Op {
        fn cmp(&self, _: &Self) -> Ordering {
            loop {}
        }
    }
    impl Hash for Op {
        fn hash<H: Hasher>(&self, _: &mut H) {
            loop {}
        }
    }
    impl Default for Op {
        fn default() -> Self {
            loop {}
        }
    }
    impl Zeroize for Op {
        fn zeroize(&mut self) {
            loop {}
        }
    }
    pub struct OpHasher(pub u64);
    impl Hasher for OpHasher {
        fn finish(&self) -> u64 {
            loop {}
        }
        fn write(&mut self, _: &[u8]) {
            loop {}
        }
    }
    macro_rules! wrap {
        ($m:ident, $w:ident) => {
            pub mod $m {
                use super::*;
                pub fn from(x: Op) -> $w<Op> {
                    $w::from(x)
                }
                pub fn as_ref(x: &$w<Op>) -> &Op {
                    x.as_ref()
                }
                pub fn into_inner(x: $w<Op>) -> Op {
                    x.into_inner()
                }
                pub fn clone(x: &$w<Op>) -> $w<Op> {
                    x.clone()
                }
                pub fn eq(x: &$w<Op>, y: &$w<Op>) -> bool {
                    x == y
                }
                pub fn ne(x: &$w<Op>, y: &$w<Op>) -> bool {
                    x != y
                }
                pub fn partial_cmp(x: &$w<Op>, y: &$w<Op>) -> Option<Ordering> {
                    x.partial_cmp(y)
                }
                pub fn cmp(x: &$w<Op>, y: &$w<Op>) -> Ordering {
                    x.cmp(y)
                }
                pub fn lt(x: &$w<Op>, y: &$w<Op>) -> bool {
                    x < y
                }
                pub fn le(x: &$w<Op>, y: &$w<Op>) -> bool {
                    x <= y
                }
                pub fn gt(x: &$w<Op>, y: &$w<Op>) -> bool {
                    x > y
                }
                pub fn ge(x: &$w<Op>, y: &$w<Op>) -> bool {
                    x >= y
                }
                pub fn hash(x: &$w<Op>, h: &mut OpHasher) {
                    x.hash(h)
                }
                pub fn default() -> $w<Op> {
                    $w::default()
                }
                #[cfg(feature = "zero")]
                pub fn zeroize(x: &mut $w<Op>) {
                    x.zeroize()
                }
            }
        };
    }
    /// the same operations on the wrapped type itself
    pub mod inner {
        use super::*;
        pub fn from(x: Op) -> Op {
            x
        }
        pub fn as_ref(x: &Op) -> &Op {
            x
        }
        pub fn into_inner(x: Op) -> Op {
            x
        }
        pub fn clone(x: &Op) -> Op {
            x.clone()
        }
        pub fn eq(x: &Op, y: &Op) -> bool {
            x == y
        }
        pub fn ne(x: &Op, y: &Op) -> bool {
            x != y
        }
        pub fn partial_cmp(x: &Op, y: &Op) -> Option<Ordering> {
            x.partial_cmp(y)
        }
        pub fn cmp(x: &Op, y: &Op) -> Ordering {
            x.cmp(y)
        }
        pub fn lt(x: &Op, y: &Op) -> bool {
            x < y
        }
        pub fn le(x: &Op, y: &Op) -> bool {
            x <= y
        }
        pub fn gt(x: &Op, y: &Op) -> bool {
            x > y
        }
        pub fn ge(x: &Op, y: &Op) -> bool {
            x >= y
        }
        pub fn hash(x: &Op, h: &mut OpHasher) {
            x.hash(h)
        }
        pub fn default() -> Op {
            Op::default()
        }
        pub fn zeroize(x: &mut Op) {
            x.zeroize()
        }
    }
    wrap!(enc, DhEncapsulator);
    wrap!(dec, DhDecapsulator);

    /// a type that does not
    pub struct NotWiped(pub u64);
    /// types whose marker implementations are queried: marked ones, then unmarked ones
    #[cfg(feature = "zero")]
    pub fn marked(_: &DhEncapsulator<Wiped>, _: &DhDecapsulator<Wiped>) {}
    #[cfg(feature = "zero")]
    pub fn unmarked(_: &DhEncapsulator<NotWiped>, _: &DhDecapsulator<NotWiped>, _: &DhEncapsulator<Op>, _: &DhDecapsulator<Op>) {}
    #[cfg(feature = "zero")]
    pub unsafe fn drop_enc(a: &mut ManuallyDrop<DhEncapsulator<Wiped>>) {
        ManuallyDrop::drop(a)
    }
    #[cfg(feature = "zero")]
    pub unsafe fn drop_dec(a: &mut ManuallyDrop<DhDecapsulator<Wiped>>) {
        ManuallyDrop::drop(a)
    }
    macro_rules! points {
        ($f:ident, $g:ident, $c:ty) => {
            pub fn $f(
                x: &DhEncapsulator<elliptic_curve::PublicKey<$c>>,
                c: bool,
            ) -> elliptic_curve::sec1::EncodedPoint<$c> {
                use elliptic_curve::sec1::ToEncodedPoint;
                x.to_encoded_point(c)
            }
            pub fn $g(x: &elliptic_curve::PublicKey<$c>, c: bool) -> elliptic_curve::sec1::EncodedPoint<$c> {
                use elliptic_curve::sec1::ToEncodedPoint;
                x.to_encoded_point(c)
            }
        };
    }
    points!(point_k256, inner_k256, k256::Secp256k1);
    points!(point_p256, inner_p256, p256::NistP256);
    points!(point_p384, inner_p384, p384::NistP384);
    points!(point_p521, inner_p521, p521::NistP521);
}

/// X-Wing's operations that draw from the operating system
#[cfg(feature = "osrng")]
pub mod osrng {
    pub fn os_generate(dko: &mut [u8; 32]) {
        *dko = *x_wing::DecapsulationKey::generate_from_os_rng().as_bytes();
    }
    pub fn os_generate_key_pair(dko: &mut [u8; 32]) {
        *dko = *x_wing::generate_key_pair_from_os_rng().0.as_bytes();
    }
}

#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum COSEAlgorithm {
    INSECURE_RS1 = -65535,
    RS512 = -259,
    RS384 = -258,
    RS256 = -257,
    ES256K = -47,
    PS512 = -39,
    PS384 = -38,
    PS256 = -37,
    ES512 = -36,
    ES384 = -35,
    EDDSA = -8,
    ES256 = -7,
}

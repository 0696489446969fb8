#[verifier::external_trait_specification]
pub trait ExBorrow<Borrowed: ?Sized> {
    type ExternalTraitSpecificationFor: std::borrow::Borrow<Borrowed>;
    fn borrow(&self) -> &Borrowed;
}

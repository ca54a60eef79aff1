@@spec
pub open spec fn sp_signing_root(object_root: Node, domain: Seq<u8>) -> Seq<u8> { nb(htr(SigningData { object_root: object_root, domain: arr32(domain) })) }
@@fn compute_signing_root
ensures r is Ok, r matches Ok(x) ==> nb(x) == sp_signing_root(ssz_object.root(), domain@)
@@fn sign_with_domain
ensures r is Ok, r matches Ok(s) ==> s == sk_sig(*signing_key, sp_signing_root(data.root(), domain@))
@@fn compute_builder_domain
ensures r is Ok, r matches Ok(d) ==> d@ == sp_domain(DomainType::ApplicationBuilder, context.genesis_fork_version, zero_node())
@@fn verify_signed_data
ensures r is Ok <==> sig_valid(*public_key, sp_signing_root(data.root(), domain@), *signature)

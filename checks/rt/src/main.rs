//! C16 C17 C18 C19 C33 C34: the real runtime (as mainnet and as the local chain are built), transaction by transaction.
use mc::Run;

macro_rules! suite {
	($name:ident, $rt:ident, $common:ident, $mainnet:literal) => {
		#[allow(unused, dead_code)]
		mod $name {
			pub use $common as common;
			pub use $rt as rt;
			pub const MAINNET: bool = $mainnet;
			pub const NET: &str = stringify!($name);
			include!("base.rs");
			pub mod fees {
				include!("fees.rs");
			}
			pub mod nonces {
				include!("nonces.rs");
			}
			pub mod effects {
				include!("effects.rs");
			}
			pub mod filters {
				include!("filters.rs");
			}
			pub mod governed {
				include!("governed.rs");
			}
			pub mod announced {
				include!("announced.rs");
			}
			pub mod queries {
				include!("queries.rs");
			}
		}
	};
}
suite!(main_net, runtime_main, common_runtime_main, true);
suite!(local, runtime_dev, common_runtime_dev, false);
// the public network has no passkeys yet
#[allow(unused, dead_code)]
mod passkeys {
	pub use crate::local::*;
	include!("passkeys.rs");
}

fn c16(run: &Run) {
	main_net::fees::c16(run);
	local::fees::c16(run);
}
fn c17(run: &Run) {
	main_net::fees::c17(run);
	local::fees::c17(run);
}
fn c33(run: &Run) {
	main_net::nonces::c33(run);
	local::nonces::c33(run);
}
fn c18(run: &Run) {
	main_net::filters::c18(run);
	local::filters::c18(run);
	main_net::effects::creation(run);
	local::effects::creation(run);
	main_net::effects::proxies(run);
	local::effects::proxies(run);
}
fn c40(run: &Run) {
	main_net::governed::c40(run);
	local::governed::c40(run);
}
fn c41(run: &Run) {
	main_net::queries::c41(run);
	local::queries::c41(run);
}
fn c42(run: &Run) {
	main_net::announced::c42(run);
	main_net::queries::chains(run, true);
	local::announced::c42(run);
	local::queries::chains(run, true);
	passkeys::c42(run);
}
fn c19(run: &Run) {
	main_net::filters::c19(run);
	local::filters::c19(run);
}

fn main() {
	mc::main_with(&[("C16", c16), ("C17", c17), ("C18", c18), ("C33", c33), ("C34", passkeys::c34), ("C19", c19), ("C40", c40), ("C41", c41), ("C42", c42)])
}

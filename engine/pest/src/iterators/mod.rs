// pest. The Elegant Parser
// Copyright (c) 2018 Dragoș Tiselice
//
// Licensed under the Apache License, Version 2.0
// <LICENSE-APACHE or http://www.apache.org/licenses/LICENSE-2.0> or the MIT
// license <LICENSE-MIT or http://opensource.org/licenses/MIT>, at your
// option. All files in the project carrying such notice may not be copied,
// modified, or distributed except according to those terms.

//! Types and iterators for parser output.

mod flat_pairs;
mod line_index;
mod pair;
pub(crate) mod pairs;
mod queueable_token;
mod tokens;

pub use self::flat_pairs::FlatPairs;
pub use self::pair::Pair;
pub use self::pairs::Pairs;
pub(crate) use self::queueable_token::QueueableToken;
pub use self::tokens::Tokens;

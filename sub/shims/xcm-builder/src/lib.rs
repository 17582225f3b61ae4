use xcm::v4::Asset;
pub trait TakeRevenue { fn take_revenue(revenue: Asset); }
impl TakeRevenue for () { fn take_revenue(_: Asset) {} }

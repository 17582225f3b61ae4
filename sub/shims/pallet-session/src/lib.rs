use sp_staking::SessionIndex;
pub trait SessionManager<V> { fn new_session(i: SessionIndex) -> Option<Vec<V>>; fn new_session_genesis(i: SessionIndex) -> Option<Vec<V>> { Self::new_session(i) } fn end_session(i: SessionIndex); fn start_session(i: SessionIndex); }
impl<V> SessionManager<V> for () { fn new_session(_: SessionIndex) -> Option<Vec<V>> { None } fn start_session(_: SessionIndex) {} fn end_session(_: SessionIndex) {} }

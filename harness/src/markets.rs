//! Every market the library offers, behind one closure-based handle.
use calendar::*;
use chrono::NaiveDate;
use qlab_time::date::Date;

pub struct Market {
    pub key: &'static str,
    pub module: &'static str,
    pub f: crate::MarketFn,
}

#[derive(Clone, Copy, Debug)]
pub enum Q {
    Business(NaiveDate),
    Holiday(NaiveDate),
    Weekend(NaiveDate),
    BridgeBusiness(Date),
    BridgeHoliday(Date),
    LastDay(NaiveDate),
    EndOfMonth(NaiveDate),
    Between(NaiveDate, NaiveDate, Option<bool>, Option<bool>),
    Easter(i32),
    Orthodox(i32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    B(bool),
    D(NaiveDate),
    N(i64),
}
impl A {
    pub fn b(self) -> bool {
        if let A::B(x) = self { x } else { unreachable!() }
    }
    pub fn d(self) -> NaiveDate {
        if let A::D(x) = self { x } else { unreachable!() }
    }
    pub fn n(self) -> i64 {
        if let A::N(x) = self { x } else { unreachable!() }
    }
}

pub fn ask<C: Calendar>(c: &C, q: Q) -> A {
    match q {
        Q::Business(d) => A::B(Calendar::is_business_day(c, d)),
        Q::Holiday(d) => A::B(Calendar::is_holiday(c, d)),
        Q::Weekend(d) => A::B(Calendar::is_weekend(c, d)),
        Q::BridgeBusiness(d) => A::B(qlab_time::calendar::Calendar::is_business_day(c, d)),
        Q::BridgeHoliday(d) => A::B(qlab_time::calendar::Calendar::is_holiday(c, d)),
        Q::LastDay(d) => A::D(Calendar::last_day_of_month(c, d)),
        Q::EndOfMonth(d) => A::D(Calendar::end_of_month(c, d)),
        Q::Between(a, b, f, l) => A::N(Calendar::business_days_between(c, a, b, f, l)),
        Q::Easter(y) => A::N(i64::from(Calendar::easter_monday(c, y))),
        Q::Orthodox(y) => A::N(i64::from(Calendar::orthodox_easter_monday(c, y))),
    }
}

std::thread_local! {
    static ONLY: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    static SEEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// The k-th market of `all`, and nothing else allocated on the way: one after
/// another they tend to occupy the same memory.
#[allow(dead_code)]
pub fn one(k: usize) -> Market {
    ONLY.set(Some(k));
    let mut v = all();
    ONLY.set(None);
    v.pop().expect("no such market")
}

fn reg<C: Calendar + crate::Shared + 'static>(v: &mut Vec<Market>, module: &'static str, key: &'static str, c: C) {
    let k = SEEN.replace(SEEN.get() + 1);
    if ONLY.get().is_some_and(|only| only != k) {
        return;
    }
    v.push(Market { key, module, f: Box::new(move |q| ask(&c, q)) });
}

impl Market {
    pub fn open(&self, d: NaiveDate) -> bool {
        (self.f)(Q::Business(d)).b()
    }
}

/// `key` is the name in reference/markets.txt; `*.default` keys carry no market.
pub fn all() -> Vec<Market> {
    SEEN.set(0);
    let mut v = vec![];
    macro_rules! plain { ($($m:ident :: $t:ident),* $(,)?) => { $( reg(&mut v, stringify!($m), stringify!($m), calendar::$m::$t); )* } }
    macro_rules! multi { ($m:ident :: $t:ident, $e:ident, [$($x:ident => $k:literal),*]) => {
        $( reg(&mut v, stringify!($m), $k, calendar::$m::$t { market: Some(calendar::$m::$e::$x) }); )*
        reg(&mut v, stringify!($m), concat!(stringify!($m), ".default"), calendar::$m::$t::default());
        reg(&mut v, stringify!($m), concat!(stringify!($m), ".none"), calendar::$m::$t { market: None });
    } }
    plain!(argentina::Argentina, botswana::Botswana, chile::Chile, china::China, czechrepublic::CzechRepublic,
        denmark::Denmark, finland::Finland, hongkong::HongKong, hungary::Hungary, iceland::Iceland, india::India,
        indonesia::Indonesia, israel::Israel, japan::Japan, mexico::Mexico, newzealand::NewZealand, norway::Norway,
        poland::Poland, romania::Romania, singapore::Singapore, slovakia::Slovakia, southafrica::SouthAfrica,
        southkorea::SouthKorea, sweden::Sweden, switzerland::Switzerland, taiwan::Taiwan, target::Target,
        thailand::Thailand, turkey::Turkey, ukraine::Ukraine, weekendsonly::WeekendsOnly);
    multi!(australia::Australia, AustraliaMarket, [Settlement => "australia.settlement", ASX => "australia.asx"]);
    multi!(austria::Austria, AustriaMarket, [Settlement => "austria.settlement", Exchange => "austria.exchange"]);
    multi!(brazil::Brazil, BrazilMarket, [Settlement => "brazil.settlement", Exchange => "brazil.exchange"]);
    multi!(canada::Canada, CanadaMarket, [Settlement => "canada.settlement", TSX => "canada.tsx"]);
    multi!(france::France, FranceMarket, [Settlement => "france.settlement", Exchange => "france.exchange"]);
    multi!(germany::Germany, GermanyMarket, [Settlement => "germany.settlement", FrankfurtStockExchange => "germany.frankfurt", Xetra => "germany.xetra", Eurex => "germany.eurex", Euwax => "germany.euwax"]);
    multi!(italy::Italy, ItalyMarket, [Settlement => "italy.settlement", Exchange => "italy.exchange"]);
    multi!(russia::Russia, RussiaMarket, [Settlement => "russia.settlement", Exchange => "russia.exchange"]);
    multi!(unitedkingdom::UnitedKingdom, UnitedKingdomMarket, [Settlement => "unitedkingdom.settlement", Exchange => "unitedkingdom.exchange", Metals => "unitedkingdom.metals"]);
    multi!(unitedstates::UnitedStates, UnitedStatesMarket, [Settlement => "unitedstates.settlement", Libor => "unitedstates.libor", NYSE => "unitedstates.nyse", GovernmentBond => "unitedstates.governmentbond", SOFR => "unitedstates.sofr", NERC => "unitedstates.nerc", FederalReserve => "unitedstates.federalreserve"]);
    v
}

//! C18: an identity has the permissions of its groups and its roles, and a
//! password or token authenticates the identity it belongs to.
use std::collections::BTreeSet;

use bonsaidb_core::admin::{AuthenticationToken, PermissionGroup, Role, User};
use bonsaidb_core::connection::{
    Authentication, HasSession, Identity, IdentityReference, SensitiveString, SessionAuthentication, StorageConnection, TokenChallengeAlgorithm,
};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::key::time::TimestampAsNanoseconds;
use bonsaidb_core::permissions::bonsai::{BonsaiAction, ServerAction};
use bonsaidb_core::permissions::{ResourceName, Statement};
use bonsaidb_core::schema::{NamedCollection, NamedReference, SerializedCollection};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::Storage;
use serde_json::json;

use super::world;
use crate::engine;
use crate::report::Report;
use crate::seq::{self, h, Acc, Mode};
use crate::tour::{self, Graph};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}
fn pw(s: &str) -> SensitiveString {
    SensitiveString(s.to_string())
}

const GROUPS: [&str; 2] = ["g", "h"];
const ROLES: [&str; 2] = ["r", "s"];
const PWS: [&str; 3] = ["", "one", "two"];

/// What is granted: by group g (in either of its versions), by group h, and
/// to everyone who is authenticated.
const MARKS: [&str; 4] = ["g1", "g2", "h", "everyone"];
fn mark(m: &str) -> ResourceName<'static> {
    ResourceName::named("m").and(m.to_string())
}
fn act() -> BonsaiAction {
    BonsaiAction::Server(ServerAction::Connect)
}
fn statement(m: &str) -> Statement {
    Statement::for_resource(mark(m)).allowing(&act())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct U {
    /// bit sets of GROUPS and ROLES
    groups: u8,
    roles: u8,
    pw: usize,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct S {
    u: [Option<U>; 2],
    /// the groups of role r (bits)
    r: u8,
    /// which statements group g has
    g: u8,
}
#[derive(Clone, Debug, Hash)]
pub enum A {
    Create(usize),
    Delete(usize),
    AddGroup(usize, usize),
    RemoveGroup(usize, usize),
    AddRole(usize, usize),
    RemoveRole(usize, usize),
    Password(usize, usize),
    RoleGroups(u8),
    GroupStatements(u8),
}

pub struct G {
    deep: bool,
}
pub struct Sys {
    s: Storage,
    groups: Vec<u64>,
    roles: Vec<u64>,
    ids: [Option<u64>; 2],
}
const NAMES: [&str; 2] = ["ann", "bob"];
/// Role s always has both groups.
fn of_role(s: &S, r: usize) -> u8 {
    if r == 0 { s.r } else { 3 }
}
fn marks(s: &S, groups: u8) -> BTreeSet<&'static str> {
    let mut m: BTreeSet<&'static str> = ["everyone"].into();
    if groups & 1 != 0 {
        m.insert(if s.g == 0 { "g1" } else { "g2" });
    }
    if groups & 2 != 0 {
        m.insert("h");
    }
    m
}
fn has(st: &Storage) -> BTreeSet<&'static str> {
    MARKS.iter().copied().filter(|m| st.allowed_to(mark(m), &act())).collect()
}

impl Graph for G {
    type S = S;
    type A = A;
    type Sys = Sys;
    fn start(&self) -> S {
        S { u: [None, None], r: 1, g: 0 }
    }
    fn actions(&self, _s: &S) -> Vec<A> {
        let mut v = vec![];
        for u in 0..2 {
            v.extend([A::Create(u), A::Delete(u)]);
            for g in 0..2 {
                if u == 0 || g == 0 || self.deep {
                    v.extend([A::AddGroup(u, g), A::RemoveGroup(u, g)]);
                }
                if u == 0 || self.deep && g == 1 {
                    v.extend([A::AddRole(u, g), A::RemoveRole(u, g)]);
                }
            }
            if u == 0 || self.deep {
                v.extend([A::Password(u, 1)]);
            }
            if u == 0 {
                v.extend([A::Password(u, 2)]);
            }
        }
        v.extend([A::RoleGroups(1), A::RoleGroups(2), A::GroupStatements(0), A::GroupStatements(1)]);
        v
    }
    fn next(&self, s: &S, a: &A) -> S {
        let mut t = s.clone();
        match *a {
            A::Create(u) => {
                if t.u[u].is_none() {
                    t.u[u] = Some(U { groups: 0, roles: 0, pw: 0 });
                }
            }
            A::Delete(u) => t.u[u] = None,
            A::AddGroup(u, g) => t.u[u].iter_mut().for_each(|u| u.groups |= 1 << g),
            A::RemoveGroup(u, g) => t.u[u].iter_mut().for_each(|u| u.groups &= !(1 << g)),
            A::AddRole(u, g) => t.u[u].iter_mut().for_each(|u| u.roles |= 1 << g),
            A::RemoveRole(u, g) => t.u[u].iter_mut().for_each(|u| u.roles &= !(1 << g)),
            A::Password(u, p) => t.u[u].iter_mut().for_each(|u| u.pw = p),
            A::RoleGroups(g) => t.r = g,
            A::GroupStatements(g) => t.g = g,
        }
        t
    }
    fn fresh(&self) -> Result<Sys, String> {
        let c = world::config(true).authenticated_permissions(vec![statement("everyone")]);
        let s = Storage::open(c).map_err(es)?;
        let admin = s.admin();
        // so that no two kinds of things share ids
        for i in 0..5 {
            PermissionGroup { name: format!("pad{i}"), statements: vec![Statement::allow_all_for_any_resource()] }.push_into(&admin).map_err(es)?;
        }
        for i in 0..10 {
            Role::named(format!("pad{i}")).push_into(&admin).map_err(es)?;
        }
        let groups = GROUPS.iter().map(|g| PermissionGroup { name: (*g).into(), statements: vec![statement(if *g == "g" { "g1" } else { "h" })] }.push_into(&admin).unwrap().header.id).collect::<Vec<_>>();
        let roles = ROLES
            .iter()
            .map(|r| Role::named(*r).with_group_ids(if *r == "r" { vec![groups[0]] } else { groups.clone() }).push_into(&admin).unwrap().header.id)
            .collect::<Vec<_>>();
        Ok(Sys { s, groups, roles, ids: [None, None] })
    }
    fn exec(&self, sys: &mut Sys, s: &S, a: &A, t: &S, acc: &mut Acc) -> Result<(), String> {
        acc.count("steps", 1);
        let admin = sys.s.admin();
        let st = &sys.s;
        // the ways to name something, in turn
        let way = |k: u64, id: Option<u64>, name: &'static str| -> NamedReference<'static, u64> {
            match (id, (h(&(a, s)) >> (3 * k)) % 3) {
                (Some(id), 0) => NamedReference::Id(DocumentId::new(&id).unwrap()),
                (Some(id), 1) => NamedReference::Key(id),
                _ => NamedReference::from(name),
            }
        };
        let mut created = None;
        let r: Result<(), Error> = match *a {
            A::Create(u) => st.create_user(NAMES[u]).map(|id| created = Some((u, id))),
            A::Delete(u) => st.delete_user(way(1, sys.ids[u], NAMES[u])),
            A::AddGroup(u, g) => st.add_permission_group_to_user(way(1, sys.ids[u], NAMES[u]), way(2, Some(sys.groups[g]), GROUPS[g])),
            A::RemoveGroup(u, g) => st.remove_permission_group_from_user(way(1, sys.ids[u], NAMES[u]), way(2, Some(sys.groups[g]), GROUPS[g])),
            A::AddRole(u, g) => st.add_role_to_user(way(1, sys.ids[u], NAMES[u]), way(2, Some(sys.roles[g]), ROLES[g])),
            A::RemoveRole(u, g) => st.remove_role_from_user(way(1, sys.ids[u], NAMES[u]), way(2, Some(sys.roles[g]), ROLES[g])),
            A::Password(u, p) => st.set_user_password(way(1, sys.ids[u], NAMES[u]), pw(PWS[p])),
            A::RoleGroups(g) => {
                let mut d = Role::load("r", &admin).map_err(es)?.ok_or("no role r")?;
                d.contents.groups = (0..2).filter(|i| g & (1 << i) != 0).map(|i| sys.groups[i]).collect();
                d.update(&admin)
            }
            A::GroupStatements(g) => {
                let mut d = PermissionGroup::load("g", &admin).map_err(es)?.ok_or("no group g")?;
                d.contents.statements = vec![statement(if g == 0 { "g1" } else { "g2" })];
                d.update(&admin)
            }
        };
        let subject = match *a {
            A::Create(u) | A::Delete(u) | A::AddGroup(u, _) | A::RemoveGroup(u, _) | A::AddRole(u, _) | A::RemoveRole(u, _) | A::Password(u, _) => Some(u),
            _ => None,
        };
        let ok = match (a, subject) {
            (A::Create(_), Some(u)) => s.u[u].is_none(),
            (_, Some(u)) => s.u[u].is_some(),
            _ => true,
        };
        match (&r, ok) {
            (Ok(()), true) => {}
            (Err(Error::UniqueKeyViolation { .. }), false) if matches!(a, A::Create(_)) => {}
            (Err(Error::UserNotFound), false) if !matches!(a, A::Create(_)) => {}
            (r, ok) => return Err(format!("{a:?} should {} and answers {r:?}", if ok { "succeed" } else { "fail" })),
        }
        if let Some((u, id)) = created {
            sys.ids[u] = Some(id);
        }
        if let A::Delete(u) = a {
            sys.ids[*u] = None;
        }
        if !ok {
            acc.outcome(&format!("{a:?} fails"));
        }
        self.look(sys, t, acc)
    }
}
impl G {
    /// Compares everything that identities can do with what `t` says.
    fn look(&self, sys: &Sys, t: &S, acc: &mut Acc) -> Result<(), String> {
        for u in 0..2 {
            let want = t.u[u].map(|x| {
                let mut groups = x.groups;
                for r in 0..2 {
                    if x.roles & (1 << r) != 0 {
                        groups |= of_role(t, r);
                    }
                }
                marks(t, groups)
            });
            let r = User::assume_identity(NAMES[u], &sys.s);
            let id = check(NAMES[u], r, want.clone())?;
            if id != sys.ids[u] {
                return Err(format!("{} is user {id:?}, not {:?}", NAMES[u], sys.ids[u]));
            }
            if let Some(id) = id {
                check("user by id", sys.s.assume_identity(IdentityReference::user(id).map_err(es)?), want.clone())?;
            }
            acc.outcome(&(u, &want));
            for (p, word) in PWS.iter().enumerate() {
                let r = sys.s.authenticate(Authentication::Password { user: NAMES[u].into(), password: pw(word) });
                let right = p > 0 && t.u[u].is_some_and(|u| u.pw == p);
                check("password", r, want.clone().filter(|_| right))?;
            }
        }
        for r in 0..2 {
            let want = Some(marks(t, of_role(t, r)));
            let id = check("role", Role::assume_identity(ROLES[r], &sys.s), want)?;
            if id != Some(sys.roles[r]) {
                return Err(format!("role {} is {id:?}", ROLES[r]));
            }
        }
        Ok(())
    }
}
/// Whether `r` is an identity with `want`, or is refused if that is none.
fn check(what: &str, r: Result<Storage, Error>, want: Option<BTreeSet<&'static str>>) -> Result<Option<u64>, String> {
    match (r, want) {
        (Ok(s), Some(w)) => {
            let m = has(&s);
            if m != w {
                return Err(format!("{what} is permitted {m:?}, not {w:?}"));
            }
            let Some(session) = s.session() else { return Err(format!("{what}: no session")) };
            let id = match &session.authentication {
                SessionAuthentication::Identity(i) => match &**i {
                    Identity::User { id, .. } | Identity::Role { id, .. } => *id,
                    o => return Err(format!("{what}: {o:?}")),
                },
                o => return Err(format!("{what}: {o:?}")),
            };
            Ok(Some(id))
        }
        (Err(Error::InvalidCredentials), None) => Ok(None),
        (Ok(s), None) => Err(format!("{what} should be refused, and is permitted {:?}", has(&s))),
        (Err(e), w) => Err(format!("{what} should be permitted {w:?}: {e:?}")),
    }
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum T {
    Begin(usize),
    BeginWrong,
    BeginEarly,
    BeginLate,
    Finish(usize),
    FinishWrong,
    FinishOther,
    DeleteToken(usize),
    DeleteUser,
}
const TS: [T; 11] = [
    T::Begin(0),
    T::Begin(1),
    T::BeginWrong,
    T::BeginEarly,
    T::BeginLate,
    T::Finish(0),
    T::Finish(1),
    T::FinishWrong,
    T::FinishOther,
    T::DeleteToken(0),
    T::DeleteUser,
];

fn tokens(seq: &[T], acc: &mut Acc) -> Result<(), String> {
    let c = world::config_at(&engine::scratch(), true).authenticated_permissions(vec![statement("everyone")]);
    let st = Storage::open(c).map_err(es)?;
    let admin = st.admin();
    let user = st.create_user("ann").map_err(es)?;
    let g = PermissionGroup { name: "g".into(), statements: vec![statement("g1")] }.push_into(&admin).map_err(es)?.header.id;
    let hh = PermissionGroup { name: "h".into(), statements: vec![statement("h")] }.push_into(&admin).map_err(es)?.header.id;
    st.add_permission_group_to_user(user, g).map_err(es)?;
    let role = Role::named("r").with_group_ids([hh]).push_into(&admin).map_err(es)?.header.id;
    // token 0 is the user's, token 1 the role's
    let toks = [
        AuthenticationToken::create(&IdentityReference::user(user).map_err(es)?, &admin).map_err(es)?,
        AuthenticationToken::create(&IdentityReference::role(role).map_err(es)?, &admin).map_err(es)?,
    ];
    let wants: [BTreeSet<&'static str>; 2] = [["everyone", "g1"].into(), ["everyone", "h"].into()];
    let mut alive = [true, true];
    let mut user_alive = true;
    // the challenges under way: which token's, and whether it has been answered
    let mut open: Vec<(usize, Storage, bool)> = vec![];
    let now = TimestampAsNanoseconds::now;
    for t in seq {
        let begin = |which: usize, when: TimestampAsNanoseconds, key: &SensitiveString| {
            let k = blake3::derive_key(&format!("bonsaidb {when} token-authentication"), key.0.as_bytes());
            let now_hash = blake3::keyed_hash(&k, &when.representation().to_be_bytes()).as_bytes().to_vec();
            st.authenticate(Authentication::Token { id: toks[which].header.id, now: when, now_hash: now_hash.into(), algorithm: TokenChallengeAlgorithm::Blake3 })
        };
        match *t {
            T::Begin(w) => match (begin(w, now(), &toks[w].contents.token), alive[w]) {
                (Ok(s), true) => {
                    if !has(&s).is_empty() {
                        return Err(format!("{t:?}: a challenge is permitted {:?}", has(&s)));
                    }
                    if !matches!(s.session().map(|s| &s.authentication), Some(SessionAuthentication::TokenChallenge { .. })) {
                        return Err(format!("{t:?}: no challenge"));
                    }
                    open.push((w, s, false));
                }
                (Err(Error::InvalidCredentials), false) => {}
                (r, _) => return Err(format!("{t:?} answers {:?}", r.map(|s| s.session().cloned()))),
            },
            T::BeginWrong => {
                // another token's key
                if let Ok(s) = begin(0, now(), &toks[1].contents.token) {
                    return Err(format!("{t:?} is accepted: {:?}", s.session()));
                }
            }
            T::BeginEarly | T::BeginLate => {
                let d = std::time::Duration::from_secs(302);
                let r = now().representation();
                let d = i64::try_from(d.as_nanos()).map_err(es)?;
                let when = TimestampAsNanoseconds::from_representation(if *t == T::BeginEarly { r - d } else { r + d });
                
                if let Ok(s) = begin(1, when, &toks[1].contents.token) {
                    return Err(format!("{t:?} is accepted: {:?}", s.session()));
                }
            }
            T::Finish(_) | T::FinishWrong | T::FinishOther => {
                let n = if *t == T::Finish(0) { 0 } else { open.len().wrapping_sub(1) };
                let Some((w, s, done)) = open.get_mut(n) else { continue };
                let Some(SessionAuthentication::TokenChallenge { nonce, server_timestamp, .. }) = s.session().map(|s| s.authentication.clone()) else {
                    return Err("no challenge".into());
                };
                let key = if *t == T::FinishOther { &toks[1 - *w].contents.token } else { &toks[*w].contents.token };
                let mut hash = AuthenticationToken::compute_challenge_response_blake3(key, &nonce, server_timestamp).as_bytes().to_vec();
                if *t == T::FinishWrong {
                    hash[31] ^= 1;
                }
                let r = s.authenticate(Authentication::TokenChallengeResponse(hash.try_into().unwrap()));
                let right = matches!(t, T::Finish(_)) && !*done && alive[*w] && (*w == 1 || user_alive);
                // an answer, right or wrong, ends the challenge
                *done = true;
                acc.outcome(&(right, *w));
                check(&format!("{t:?}"), r, Some(wants[*w].clone()).filter(|_| right))?;
            }
            T::DeleteToken(w) => {
                if alive[w] {
                    AuthenticationToken::get(&toks[w].header.id, &admin).map_err(es)?.ok_or("no token")?.delete(&admin).map_err(es)?;
                    alive[w] = false;
                }
            }
            T::DeleteUser => {
                if user_alive {
                    st.delete_user(user).map_err(es)?;
                    user_alive = false;
                }
            }
        }
        acc.count("token steps", 1);
    }
    Ok(())
}

/// The argon2 threads write every refusal to stderr.
fn quiet() {
    if std::env::var_os("MC_VERBOSE").is_none() {
        unsafe {
            let n = libc::open("/dev/null\0".as_ptr().cast(), libc::O_WRONLY);
            libc::dup2(n, 2);
        }
    }
}

#[derive(Clone, Debug)]
enum Job {
    Tour(u64, u64),
    Tokens(usize, usize),
}

pub fn run() -> i32 {
    let mut r = Report::new("C18", "model_checking");
    let deep = r.thorough();
    let mut jobs: Vec<Job> = (0..16).map(|i| Job::Tour(i, 16)).collect();
    jobs.extend((0..TS.len()).map(|i| Job::Tokens(i, if deep { 5 } else { 4 })));
    seq::run(&mut r, Mode::Free, jobs, move |j, a| {
        quiet();
        match j {
        Job::Tour(p, n) => tour::cover(&G { deep }, *p, *n, a),
        Job::Tokens(first, depth) => {
            let mut idx = vec![0usize; depth - 1];
            loop {
                let mut seq = vec![TS[*first]];
                seq.extend(idx.iter().map(|i| TS[*i]));
                a.at(&format!("{seq:?}"));
                match engine::no_panic(|| tokens(&seq, a)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) | Err(e) => a.bad(format!("{e} after {seq:?}"), json!({"steps": format!("{seq:?}")})),
                }
                let mut k = 0;
                while k < idx.len() {
                    idx[k] += 1;
                    if idx[k] < TS.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == idx.len() {
                    break;
                }
            }
        }
        }
    });
    r.finish()
}

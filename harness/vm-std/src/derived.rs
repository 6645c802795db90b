//! C45: what the derive macros generate forwards to the parts of a type.  The traits and types that the generated code
//! names are stand-ins which record every call.

use std::fmt;
use std::sync::{Arc, Mutex};

use tinymist_derive::{BindTyCtx, DeclEnum};
use vm_core::{h64, json, Ctx, Rng};

/// The shape of tinymist-analysis's interned pointers.
#[derive(PartialEq, Eq, Hash)]
pub struct Interned<T: ?Sized>(Arc<T>);
impl<T: ?Sized> Clone for Interned<T> {
    fn clone(&self) -> Self {
        Interned(self.0.clone())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Interned<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

#[derive(Debug, PartialEq, Eq, Hash)]
pub struct TypeVar(u64);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DynTypeBounds(u64);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ty(u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Span(u64);

pub trait TyCtx {
    fn global_bounds(&self, var: &Interned<TypeVar>, pol: bool) -> Option<DynTypeBounds>;
    fn local_bind_of(&self, var: &Interned<TypeVar>) -> Option<Ty>;
}

/// A context of its own: answers by its id, and writes down what it was asked.
pub struct Real {
    id: u64,
    asked: Arc<Mutex<Vec<(u64, u64, usize, Option<bool>)>>>,
}

impl Real {
    fn bounds(id: u64, var: u64, pol: bool) -> Option<DynTypeBounds> {
        let h = h64(&("bounds", id, var, pol));
        (h % 3 != 0).then_some(DynTypeBounds(h))
    }
    fn bind(id: u64, var: u64) -> Option<Ty> {
        let h = h64(&("bind", id, var));
        (h % 3 != 0).then_some(Ty(h))
    }
}

impl TyCtx for Real {
    fn global_bounds(&self, var: &Interned<TypeVar>, pol: bool) -> Option<DynTypeBounds> {
        self.asked.lock().unwrap().push((self.id, var.0 .0, Arc::as_ptr(&var.0) as usize, Some(pol)));
        Real::bounds(self.id, var.0 .0, pol)
    }
    fn local_bind_of(&self, var: &Interned<TypeVar>) -> Option<Ty> {
        self.asked.lock().unwrap().push((self.id, var.0 .0, Arc::as_ptr(&var.0) as usize, None));
        Real::bind(self.id, var.0 .0)
    }
}

impl<T: TyCtx> TyCtx for &mut T {
    fn global_bounds(&self, var: &Interned<TypeVar>, pol: bool) -> Option<DynTypeBounds> {
        (**self).global_bounds(var, pol)
    }
    fn local_bind_of(&self, var: &Interned<TypeVar>) -> Option<Ty> {
        (**self).local_bind_of(var)
    }
}

// Without an attribute, the context is called tyctx.
#[derive(BindTyCtx)]
struct Default_ {
    #[allow(unused)]
    other: Real,
    tyctx: Real,
    #[allow(unused)]
    ctx: Real,
}

#[derive(BindTyCtx)]
#[bind(ctx)]
struct Named {
    #[allow(unused)]
    tyctx: Real,
    ctx: Real,
}

/// The attribute among others.
#[derive(BindTyCtx)]
#[allow(unused)]
#[bind(0)]
#[allow(dead_code)]
struct First<'a, T: TyCtx>(&'a mut T, Real);

#[derive(BindTyCtx)]
#[bind(1)]
struct Second<'a, F, T, const N: usize>(#[allow(unused)] [F; N], &'a mut T, #[allow(unused)] Real)
where
    T: TyCtx,
    F: Fn(bool) -> bool;

// A derived context within another.
#[derive(BindTyCtx)]
#[bind(inner)]
struct Nested<'a, T: TyCtx> {
    #[allow(unused)]
    tyctx: Real,
    inner: First<'a, T>,
}

macro_rules! parts {
    ($($t:ident),*) => {$(
        pub struct $t {
            name: Interned<str>,
            span: Span,
            text: String,
        }
        impl $t {
            fn name(&self) -> &Interned<str> {
                &self.name
            }
            fn span(&self) -> Span {
                self.span
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.text)?;
                if f.alternate() {
                    write!(f, "#")?;
                }
                Ok(())
            }
        }
        impl Make for $t {
            fn make(name: Interned<str>, span: Span, text: String) -> Self {
                Self { name, span, text }
            }
        }
    )*};
}
trait Make {
    fn make(name: Interned<str>, span: Span, text: String) -> Self;
}
parts!(SpannedDecl, ModuleDecl, SpanDecl, NameRangeDecl);

macro_rules! enums {
    ($($m:ident { $($v:ident($p:ident)),* })*) => {$(
        mod $m {
            use super::*;
            #[derive(DeclEnum)]
            pub enum Decl {
                $($v($p)),*
            }
            type Built = (Decl, &'static str);
            pub fn all(part: &dyn Fn(&str) -> (Interned<str>, Span, String)) -> Vec<Built> {
                vec![$({
                    let (n, s, t) = part(stringify!($v));
                    (Decl::$v($p::make(n, s, t)), stringify!($v))
                }),*]
            }
            pub fn check(ctx: &Ctx, r: &mut Rng) {
                for _ in 0..20 {
                    let seed = r.u64();
                    let part = |v: &str| {
                        let h = h64(&(seed, v));
                        let text = ["", "{", "}", "{}", "{{:?}}", "é\n\"", "plain"][(h % 7) as usize];
                        (Interned::<str>(format!("{v}{h}").into()), Span(h), format!("{text}{h}"))
                    };
                    for (d, v) in all(&part) {
                        let (n, s, t) = part(v);
                        ctx.eval(h64(&(v, seed)), true);
                        ctx.count("variants", 1);
                        let got = (d.name().clone(), d.span(), format!("{d:?}"));
                        let want = (n, s, format!("{v}({t})"));
                        if got != want {
                            ctx.violate("derived:enum", json!({"enum": stringify!($m), "variant": v, "got": format!("{got:?}"), "want": format!("{want:?}")}));
                        }
                    }
                }
            }
        }
    )*};
}

enums! {
    one { Only(SpanDecl) }
    same { Func(SpannedDecl), Var(SpannedDecl), Import(SpannedDecl) }
    mixed {
        Func(SpannedDecl), ImportAlias(SpannedDecl), Module(ModuleDecl), ModuleImport(SpanDecl), Closure(SpanDecl),
        BibEntry(NameRangeDecl), Docs(SpanDecl), Generated(NameRangeDecl)
    }
}

pub fn c45(ctx: &Ctx) -> i32 {
    let mut r = ctx.rng(0);
    let asked = Arc::new(Mutex::new(vec![]));
    let real = |id| Real { id, asked: asked.clone() };
    for round in 0..ctx.n(2_000, 100_000) {
        let base = r.u64() >> 8;
        let (mut a, mut b, mut c) = (real(base), real(base), real(base));
        let yes = |b: bool| b;
        let shapes: [(&str, Box<dyn TyCtx + '_>); 5] = [
            ("default", Box::new(Default_ { other: real(1), tyctx: real(base), ctx: real(2) })),
            ("named", Box::new(Named { tyctx: real(1), ctx: real(base) })),
            ("first", Box::new(First(&mut a, real(1)))),
            ("second", Box::new(Second([yes, yes], &mut b, real(1)))),
            ("nested", Box::new(Nested { tyctx: real(1), inner: First(&mut c, real(2)) })),
        ];
        for (shape, s) in &shapes {
            let var = Interned(Arc::new(TypeVar(r.u64() % 50)));
            let pol = r.chance(1, 2);
            let id = var.0 .0;
            let got = (s.global_bounds(&var, pol), s.local_bind_of(&var));
            let want = (Real::bounds(base, id, pol), Real::bind(base, id));
            let p = Arc::as_ptr(&var.0) as usize;
            let log = std::mem::take(&mut *asked.lock().unwrap());
            ctx.eval(h64(&(shape, base, id, pol)), true);
            ctx.count("questions forwarded", 2);
            ctx.count(if want.0.is_some() { "bounds found" } else { "bounds missing" }, 1);
            // The one context is asked, with the very variable and polarity, once.
            if got != want || log != [(base, id, p, Some(pol)), (base, id, p, None)] {
                ctx.violate("derived:context", json!({"shape": shape, "round": round, "pol": pol, "got": format!("{got:?}"), "want": format!("{want:?}"), "asked": format!("{log:?}"), "context": base}));
            }
        }
    }
    one::check(ctx, &mut r);
    same::check(ctx, &mut r);
    mixed::check(ctx, &mut r);
    ctx.require("questions forwarded", 1_000);
    ctx.require("variants", 100);
    ctx.finish(
        "exploration",
        "types that derive BindTyCtx in every shape the repository uses (default, named and positional context, generics, nesting) \
         over contexts that record what they are asked, random variables and polarities; enums of 1, 3 and 8 variants that derive \
         DeclEnum with random contents; every case is non-trivial; oracle: the question asked directly",
        &["the traits and types that the generated code names are stand-ins"],
    )
}

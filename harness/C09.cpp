// vx: * jobs=8 time=400 time_t=800
// bounds: every history of 4 of 8-9 operations over 3 owners (box, reference-counted pointer, atomically reference-counted pointer) of owning values; all values
// outside: longer histories; concurrent use (T03); assigning an owner from inside the object it owns (p = move(p->next))
#include "model.h"
#include <rpp/box.h>
#include <rpp/rc.h>

HARNESS(box_history) {
    Leak leak;
    {
        Box<Tok> b[3];
        bool ok[3] = {};
        u32 v[3] = {};
        for(int s = 0; s < 4; s++) {
            int i = vx_choose("box", 3), j = (i + 1) % 3;
            u32 x = sym32();
            switch(vx_choose("op", 8)) {
            case 0: b[i] = Box<Tok>(Tok(x)), ok[i] = true, v[i] = x; break;
            case 1: b[i] = Box<Tok>(x), ok[i] = true, v[i] = x; break;
            case 2: b[i] = Box<Tok>::make(x), ok[i] = true, v[i] = x; break;
            case 3: b[i].emplace(x), ok[i] = true, v[i] = x; break;
            case 4:
                b[i] = rpp::move(b[j]);
                ok[i] = ok[j], v[i] = v[j], ok[j] = false;
                break;
            case 5: {
                u32 at = Tok::next;
                Box<Tok> c = b[i].clone();
                CHECKM(Tok::next == at + (ok[i] ? 1 : 0) && c.ok() == ok[i], "Box::clone copies once");
                if(ok[i]) CHECKM(val(*c) == v[i] && &*c != &*b[i], "Box::clone");
            } break;
            case 6: {
                Box<Tok> t{rpp::move(b[i])};
                CHECKM(!b[i].ok() && t.ok() == ok[i], "moved-from Box is empty");
                ok[i] = false;
            } break;
            case 7: {
                Box<Tok>* self = &b[i];
                b[i] = rpp::move(*self);
                ok[i] = b[i].ok();
            } break;
            }
            u32 n = 0;
            for(int k = 0; k < 3; k++) {
                CHECKM(b[k].ok() == ok[k], "Box ownership");
                if(ok[k]) CHECKM(val(*b[k]) == v[k] && b[k]->value == v[k], "Box value"), n++;
            }
            CHECKM(Tok::count == n, "Box destroys its object exactly when it loses it");
        }
    }
    leak.done();
    CHECKM(Tok::count == 0, "an object was never destroyed");
    vx_reach("end");
}
template<template<typename, typename> typename P>
static void shared_history() {
    using R = P<Tok, Mdefault>;
    Leak leak;
    {
        R p[3];
        int obj[3] = {-1, -1, -1};
        u32 v[24] = {};
        int objs = 0;
        for(int s = 0; s < 4; s++) {
            int i = vx_choose("owner", 3), j = (i + 1) % 3;
            u32 x = sym32();
            u32 at = Tok::next;
            bool fresh = false;
            switch(vx_choose("op", 9)) {
            case 0: p[i] = R(x), obj[i] = objs, v[objs++] = x, fresh = true; break;
            case 1: p[i] = R::make(x), obj[i] = objs, v[objs++] = x, fresh = true; break;
            case 2: p[i] = p[j].dup(), obj[i] = obj[j]; break;
            case 3: p[i] = rpp::move(p[j]), obj[i] = obj[j], obj[j] = -1; break;
            case 4: p[i].clear(), obj[i] = -1; break;
            case 5: {
                R t = p[i].dup();
                R u{rpp::move(t)};
                CHECKM(!t.ok() && t.references() == 0, "moved-from pointer is empty");
                u32 want = 0;
                for(int k = 0; k < 3; k++) want += obj[k] == obj[i];
                CHECKM(u.references() == (obj[i] < 0 ? 0 : want + 1), "reference count equals the number of owners");
            } break;
            case 6:
                p[i] = p[i].dup(); // self-assignment through a copy
                break;
            case 7:
                if(obj[i] < 0) break;
                {
                    R t = R::from_this(&*p[i]);
                    CHECKM(&*t == &*p[i], "owner recovered from the object");
                    p[j] = rpp::move(t);
                    obj[j] = obj[i];
                }
                break;
            case 8:
                if(obj[i] < 0) break;
                (*p[i]).value = x;
                v[obj[i]] = x;
                break;
            }
            CHECKM(Tok::next == at + (fresh ? 1 : 0), "sharing copies the object");
            u32 n = 0;
            for(int o = 0; o < objs; o++) {
                bool used = false;
                for(int k = 0; k < 3; k++) used |= obj[k] == o;
                n += used;
            }
            CHECKM(Tok::count == n, "object destroyed exactly when its last owner goes");
            for(int k = 0; k < 3; k++) {
                CHECKM(p[k].ok() == (obj[k] >= 0), "pointer is empty exactly when it owns nothing");
                u64 want = 0;
                if(obj[k] >= 0)
                    for(int l = 0; l < 3; l++) want += obj[l] == obj[k];
                CHECKM(p[k].references() == want, "reference count equals the number of owners");
                if(obj[k] >= 0) {
                    CHECKM(val(*p[k]) == v[obj[k]] && p[k]->value == v[obj[k]], "shared object keeps its value");
                    for(int l = 0; l < 3; l++)
                        if(obj[l] == obj[k]) CHECKM(&*p[l] == &*p[k], "owners share one object");
                }
            }
        }
    }
    leak.done();
    CHECKM(Tok::count == 0, "an object was never destroyed");
    vx_reach("end");
}
HARNESS(rc_history) {
    shared_history<Rc>();
}
HARNESS(arc_history) {
    shared_history<Arc>();
}
struct Base {
    u32 a;
    explicit Base(u32 x) : a(x) {
    }
    virtual ~Base() = default;
    virtual u32 get() const {
        return a;
    }
};
struct Derived : Base {
    Tok t;
    explicit Derived(u32 x) : Base(1), t(x) {
    }
    u32 get() const override {
        return val(t);
    }
};
HARNESS(box_polymorphic) {
    Leak leak;
    {
        u32 x = sym32();
        Box<Derived> d{x};
        Box<Base> b{rpp::move(d)};
        CHECKM(!d.ok() && b.ok() && b->get() == x, "a box of a derived object converts to a box of its base");
        Box<Base> c;
        c = rpp::move(b);
        CHECKM(c->get() == x, "moved polymorphic box");
    }
    leak.done();
    CHECKM(Tok::count == 0, "derived object destroyed through its base");
    vx_reach("end");
}
HARNESS(empty_owner) {
    Box<Tok> b;
    Rc<Tok> r;
    Arc<Tok> a;
    if(vx_choose("used", 2)) {
        b.emplace(1u);
        r = Rc<Tok>(2u);
        a = Arc<Tok>(3u);
        auto b2 = rpp::move(b);
        auto r2 = rpp::move(r);
        auto a2 = rpp::move(a);
    }
    const Box<Tok>& cb = b;
    const Rc<Tok>& cr = r;
    const Arc<Tok>& ca = a;
    switch(vx_choose("which", 12)) {
    case 0: MUST_DIE(*b); break;
    case 1: MUST_DIE(*cb); break;
    case 2: MUST_DIE(b->value); break;
    case 3: MUST_DIE(cb->value); break;
    case 4: MUST_DIE(*r); break;
    case 5: MUST_DIE(*cr); break;
    case 6: MUST_DIE(r->value); break;
    case 7: MUST_DIE(cr->value); break;
    case 8: MUST_DIE(*a); break;
    case 9: MUST_DIE(*ca); break;
    case 10: MUST_DIE(a->value); break;
    case 11: MUST_DIE(ca->value); break;
    }
}
HARNESS(nested_owners) {
    Leak leak;
    {
        u32 x = sym32();
        Rc<Box<Tok>> r{Box<Tok>(x)};
        Vec<Rc<Box<Tok>>> v;
        for(int i = 0; i < 9; i++) v.push(r.dup());
        CHECKM(r.references() == 10 && val(**v[8]) == x, "owners stored in a growing container");
        v.resize((u64)vx_choose("keep", 4));
        CHECKM(r.references() == v.length() + 1, "owners dropped by the container");
        r.clear();
        CHECKM(Tok::count == (v.empty() ? 0 : 1), "object lives while any owner does");
    }
    leak.done();
    CHECKM(Tok::count == 0, "an object was never destroyed");
    vx_reach("end");
}

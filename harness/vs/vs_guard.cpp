// initialisation of function-local statics: what it wrote is visible to everybody afterwards
extern "C" {
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) {
    int r = __real___cxa_guard_acquire(g);
    if (r) vs::in_static++;
    return r;
}
void __wrap___cxa_guard_abort(void* g) {
    vs::in_static--;
    __real___cxa_guard_abort(g);
}
void __wrap___cxa_guard_release(void* g) {
    vs::in_static--;
    if (vs::on()) {
        vs::E.stat.join(vs::self().cur);
        vs::E.statver++;
    }
    __real___cxa_guard_release(g);
}
}


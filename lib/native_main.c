/* Entry point of native replays: runs the harness entry and turns recorded failures into the exit status. */
extern void VF_ENTRY(void);
extern int vf_fails __attribute__((weak));
int main(void) { VF_ENTRY(); return vf_fails ? 1 : 0; }

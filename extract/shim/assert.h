// Used only when the source is extracted for verification: every assertion of
// the code under verification becomes a call the translator can see.
#ifndef VP_ASSERT_H
#define VP_ASSERT_H
namespace surf { void vp_assert(bool cond); }
#endif
#undef assert
#define assert(e) ::surf::vp_assert(static_cast<bool>(e))

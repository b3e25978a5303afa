#pragma once
#include <QtCore/QtCore>
// branch-free helpers (the compiler keeps them as selects/arithmetic)
static inline uint m_sel(bool c, uint a, uint b) { uint m = 0u - (uint)c; return (a & m) | (b & ~m); }
static inline int m_seli(bool c, int a, int b) { return (int)m_sel(c, (uint)a, (uint)b); }
static inline uint m_upper(uint c) { bool l = ((c >= 'a') & (c <= 'z')) | ((c >= 0xe0) & (c <= 0xfe) & (c != 0xf7)); return c - ((uint)l << 5); }
static inline uint m_lower(uint c) { bool u = ((c >= 'A') & (c <= 'Z')) | ((c >= 0xc0) & (c <= 0xde) & (c != 0xd7)); return c + ((uint)u << 5); }
static inline bool m_space(uint c) { return (c == 0x20) | ((c >= 9) & (c <= 13)) | (c == 0x85) | (c == 0xa0); }
static inline bool m_word(uint c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == 0xaa) | (c == 0xb5) | (c == 0xba) | (c == 0xb2) | (c == 0xb3) | (c == 0xb9) | ((c >= 0xbc) & (c <= 0xbe)) | ((c >= 0xc0) & (c != 0xd7) & (c != 0xf7) & (c <= 0xff)); }
QStringList m_splitClass(const QString &s, bool (*cls)(ushort), bool skip);

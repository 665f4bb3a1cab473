#include "str_ops.h"
void run()
{
   for(int c = 0; c < 65536; c++) {
      CASE("character %04X", c);
      Char x((uint16)c);
      bool dg = c >= '0' && c <= '9', upc = (c >= 'A' && c <= 'Z') || (c >= 0xC0 && c <= 0xDE && c != 0xD7), loc = (c >= 'a' && c <= 'z') || (c >= 0xDF && c <= 0xFF && c != 0xF7);
      EXPECT(x.unicode() == c, "unicode %04X", x.unicode());
      EXPECT(x.isDigit() == dg, "isDigit %d", x.isDigit());
      EXPECT(x.digitValue() == (dg ? c - '0' : -1), "digitValue %d", x.digitValue());
      EXPECT(x.isUpperCase() == upc, "isUpperCase %d", x.isUpperCase());
      EXPECT(x.isLowerCase() == loc, "isLowerCase %d", x.isLowerCase());
      EXPECT(x.isLetter() == (upc || loc), "isLetter %d", x.isLetter());
      EXPECT(x.isWhitespace() == sp((char16_t)c), "isWhitespace %d", x.isWhitespace());
      Char l = x.toLowerCase(), u = x.toUpperCase();
      EXPECT(l.unicode() == lo((char16_t)c), "toLowerCase %04X", l.unicode());
      EXPECT(u.unicode() == up((char16_t)c), "toUpperCase %04X", u.unicode());
      EXPECT(l.toLowerCase().unicode() == l.unicode() && u.toUpperCase().unicode() == u.unicode(), "not idempotent");
      if(l.unicode() != c) EXPECT(l.toUpperCase().unicode() == c, "lower case does not map back");
      if(u.unicode() != c) EXPECT(u.toLowerCase().unicode() == c, "upper case does not map back");
   }
}

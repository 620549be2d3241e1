// the conversions with the user's own in their place, in a library of their own (renamed so that nothing is shared with the standard one)
#define KIT_NO_LOG_HOOK
#define KIT_NO_ERROR_HOOK
char* user_text(char* text, float v);
char* user_text(char* text, double v);
#define CE_USER_TO_TEXT_FROM_IEEE754(T, N) user_text(T, N)
#define ce ce_user
#include "to_text.cpp"
#include <string.h>
int user_calls, user_width;
double user_value;
char* user_at;
static char* user_any(char* text, double v, int width)
{
    ++user_calls, user_width = width, user_value = v, user_at = text;
    unsigned long long b;
    memcpy(&b, &v, sizeof b);
    int n = int(b % 40); // not bound to what the standard one writes
    for (int i = 0; i < n; ++i) text[i] = char('A' + (b >> i) % 26);
    return text + n;
}
char* user_text(char* text, float v) { return user_any(text, v, 4); }
char* user_text(char* text, double v) { return user_any(text, v, 8); }
char* user_one(char* text, float v) { return ce_user::to_text(text, v); }
char* user_one(char* text, double v) { return ce_user::to_text(text, v); }
char* user_parts(char* text, int a, float v, char const* s, double w) { return ce_user::to_text(text, a, v, s, w, v); }

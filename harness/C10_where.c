// SELECT ... WHERE returns exactly the rows that satisfy the condition.
//@ run h_where engine=msym lib=all timeout=400 workers=3 covers="3 rows; comparisons of SHORT, LONG and CHAR columns with ? and literals, AND/OR/parentheses, IS [NOT] NULL; every value (comparisons on non-NULL integers)"
#include "db.h"
static Cell t[3][4];
void h_where(void)
{
    static const struct { const char *w; int np; } c[] = {
        { "`B` = ?", 1 }, { "`B` < ?", 1 }, { "`B` <= ?", 1 }, { "`B` > ?", 1 }, { "`B` >= ?", 1 }, { "`B` <> ?", 1 },
        { "`D` < ?", 1 }, { "`D` >= ?", 1 }, { "`D` = ?", 1 },
        { "`C` = ?", 1 }, { "`C` <> ?", 1 }, { "`C` IS NULL", 0 }, { "`C` IS NOT NULL", 0 },
        { "`B` > ? AND `D` < ?", 2 }, { "`B` = ? OR `D` = ?", 2 }, { "(`B` < ? OR `C` = 'k') AND `D` > ?", 2 },
        { "`B` = -12 OR `C` = 'k'", 0 }, { "`T`.`B` > 100", 0 }, { "`B` = `A`", 0 }, { "`B` <> `A` AND `D` <= 70000", 0 } };
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` SHORT, `C` CHAR(8), `D` LONG PRIMARY KEY `A`)");
    int k = sym_choose(sizeof c / sizeof *c); char s[3];
    for (int i = 0; i < 3; i++) {
        int ns = sym_choose(2); sym_text(s, ns, 'a', 'z');
        t[i][0] = c_int(i); t[i][1] = sym_int16(); t[i][2] = c_str(s); t[i][3] = sym_int32();
        CHECK(exr(db, "INSERT INTO `T` (`A`,`B`,`C`,`D`) VALUES (?,?,?,?)", 4, t[i]), "insert");
    }
    Cell p[2] = { sym_int32(), sym_int32() }; 
    if (k == 9 || k == 10) { sym_text(s, 1, 'a', 'z'); p[0] = c_str(s); }
    int x = p[0].i, y = p[1].i;
    Cell want[3]; unsigned n = 0;
    for (int i = 0; i < 3; i++) {
        int a = t[i][0].i, b = t[i][1].i, d = t[i][3].i, isk = t[i][2].kind && !strcmp(t[i][2].s, "k"), m = 0;
        switch (k) {
        case 0: m = b == x; break; case 1: m = b < x; break; case 2: m = b <= x; break; case 3: m = b > x; break; case 4: m = b >= x; break; case 5: m = b != x; break;
        case 6: m = d < x; break; case 7: m = d >= x; break; case 8: m = d == x; break;
        case 9: m = cell_eq(t[i][2], p[0]); break; case 10: m = !cell_eq(t[i][2], p[0]); break;
        case 11: m = t[i][2].kind == 0; break; case 12: m = t[i][2].kind != 0; break;
        case 13: m = b > x && d < y; break; case 14: m = b == x || d == y; break; case 15: m = (b < x || isk) && d > y; break;
        case 16: m = b == -12 || isk; break; case 17: m = b > 100; break; case 18: m = b == a; break; case 19: m = b != a && d <= 70000; break;
        }
        if (m) want[n++] = t[i][0];
    }
    char sql[96]; strcpy(sql, "SELECT `A` FROM `T` WHERE "); strcat(sql, c[k].w);
    LibmsiRecord *r = c[k].np ? rec_of(c[k].np, p) : NULL;
    CHECK(rows_are_set(db, sql, r, n, 1, want), "exactly the rows that satisfy the condition");
    WITNESS_IF(n == 3, "all match"); WITNESS_IF(n == 0, "none match"); WITNESS_IF(n == 2, "some match");
    g_object_unref(db);
}

/* Replays operations on the list, table and sort services and shows what their users can see.
   Input lines (items and entries are numbers; lists are 0 and 1):
     f l i  insert first      l l i  insert last     b l i r  insert i before r   a l r i  insert i after r
     r l i  remove            v l    list_in_array   e l      list_empty
     k i hex  gives entry i its key                  I i  insert entry   X i  remove entry
     ? hex  lookup            T      table_in_array  Z    table_empty
     s n v...  sort
   After each operation one line of output. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "util.h"
#include "list.h"
#include "table.h"
#include "sort.h"

BEGIN_ITEM(Thing)
    int id;
END_ITEM(Thing);
BEGIN_LIST_OF(Thing)
END_LIST(Things);
BEGIN_ENTRY(Named)
    int id;
END_ENTRY(Named);
BEGIN_TABLE_OF(Named, Namedlist)
END_TABLE(Names);

#define MAX 4096
static Thing thing[MAX];
static Things things[2];
static Named named[MAX];
static Names names;

static void show_list(Things *l)
{
    Thing *t;
    long n = 0;
    for (t = l->first; t && n < 2 * MAX; t = t->next, n++)
        printf("%d ", t->id);
    printf("| ");
    for (t = l->last, n = 0; t && n < 2 * MAX; t = t->prev, n++)
        printf("%d ", t->id);
    printf("| %ld\n", l->count);
}
static void emptied_thing(Thing *t) { printf("%d ", t->id); }
static void emptied_named(Named *t) { printf("%d ", t->id); }

static char *unhex(char *s)
{
    char *r = malloc(strlen(s) / 2 + 1), *p = r;
    unsigned x;
    for (; s[0] && s[1] && sscanf(s, "%2x", &x) == 1; s += 2)
        *p++ = (char) x;
    *p = '\0';
    return r;
}

typedef struct { long value, id; } Element;
static int compare(Element *x, Element *y) { return x->value < y->value ? -1 : x->value > y->value; }

int main(void)
{
    char op[8], hex[1 << 16];
    int i, l, r, round;
    long n, j;
    for (i = 0; i < MAX; i++)
        thing[i].id = named[i].id = i;
    list_initialize(&things[0]);
    list_initialize(&things[1]);
    table_initialize(&names);
    while (scanf("%7s", op) == 1)
    {
        switch (op[0])
        {
        case 'f': scanf("%d %d", &l, &i); list_insert_first(&things[l], &thing[i]); show_list(&things[l]); break;
        case 'l': scanf("%d %d", &l, &i); list_insert_last(&things[l], &thing[i]); show_list(&things[l]); break;
        case 'b': scanf("%d %d %d", &l, &i, &r); list_insert_before(&things[l], &thing[i], &thing[r]); show_list(&things[l]); break;
        case 'a': scanf("%d %d %d", &l, &r, &i); list_insert_after(&things[l], &thing[r], &thing[i]); show_list(&things[l]); break;
        case 'r': scanf("%d %d", &l, &i); list_remove(&things[l], &thing[i]); show_list(&things[l]); break;
        case 'v':
            scanf("%d", &l);
            list_in_array(&things[l]);
            for (j = 0; j < things[l].count; j++)
                printf("%d ", things[l].array[j]->id);
            printf("\n");
            break;
        case 'e': scanf("%d", &l); list_empty(&things[l], emptied_thing); printf("| "); show_list(&things[l]); break;
        case 'k': scanf("%d %65535s", &i, hex); named[i].key = unhex(hex + 1); break;
        case 'I': scanf("%d", &i); table_insert(&names, &named[i]); printf("%ld\n", names.count); break;
        case 'X': scanf("%d", &i); table_remove(&names, &named[i]); printf("%ld\n", names.count); break;
        case '?':
            {
                char *key;
                Named *found;
                scanf("%65535s", hex);
                key = unhex(hex + 1);
                found = table_lookup(&names, key);
                printf("%d\n", found ? found->id : -1);
                free(key);
                break;
            }
        case 'T':
            table_in_array(&names);
            for (j = 0; j < names.count; j++)
                printf("%d ", names.array[j]->id);
            printf("\n");
            break;
        case 'Z': table_empty(&names, emptied_named); printf("| %ld\n", names.count); break;
        case 's':
            {
                Element *e, **a;
                scanf("%ld", &n);
                e = malloc((n + 1) * sizeof(Element));
                a = malloc((n + 1) * sizeof(Element *));
                for (j = 0; j < n; j++)
                {
                    scanf("%ld", &e[j].value);
                    e[j].id = j + 1;
                    a[j] = &e[j];
                }
                sort(n, a, compare);
                for (j = 0; j < n; j++)
                    printf("%ld ", a[j]->id);
                printf("\n");
                free(e); free(a);
                break;
            }
        default: return 3;
        }
        fflush(stdout);
    }
    return 0;
}

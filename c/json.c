/* The JSON layer: parse, build through the interface, edit, serialise.
 * Values as tokens: o N (key value)* | a N value* | s HEX | n NUMBER | t | f | 0; strings in hex, "-" empty */
#include "driver.h"
#include "parson/parson.h"

static int at;
static char *str(void) { return (char *)unhex(tok[at++], NULL); }
static JSON_Value *rd(void) {
	char *t = tok[at++];
	char *s;
	JSON_Value *v = NULL, *w;
	switch (t[0]) {
		case 'o': {
			int n = atoi(tok[at++]);
			v = json_value_init_object();
			for (int i = 0; i < n; ++i) {
				s = str();
				w = rd();
				if (json_object_set_value(json_value_get_object(v), s, w) != JSONSuccess) printf("!set ");
				free(s);
			}
			return v;
		}
		case 'a': {
			int n = atoi(tok[at++]);
			v = json_value_init_array();
			for (int i = 0; i < n; ++i)
				if (json_array_append_value(json_value_get_array(v), rd()) != JSONSuccess) printf("!append ");
			return v;
		}
		case 's': s = str(); v = json_value_init_string(s); free(s); return v;
		case 'n': return json_value_init_number(strtod(tok[at++], NULL));
		case 't': return json_value_init_boolean(1);
		case 'f': return json_value_init_boolean(0);
	}
	return json_value_init_null();
}
static void dump(const JSON_Value *v) {
	switch (json_value_get_type(v)) {
		case JSONObject: {
			JSON_Object *o = json_value_get_object(v);
			size_t n = json_object_get_count(o);
			printf("o %zu ", n);
			for (size_t i = 0; i < n; ++i) {
				const char *k = json_object_get_name(o, i);
				puthex(k, strlen(k));
				if (json_object_get_value(o, k) != json_object_get_value_at(o, i)) printf("!key ");
				if (json_value_get_parent(json_object_get_value_at(o, i)) != v) printf("!parent ");
				dump(json_object_get_value_at(o, i));
			}
		} break;
		case JSONArray: {
			JSON_Array *a = json_value_get_array(v);
			size_t n = json_array_get_count(a);
			printf("a %zu ", n);
			for (size_t i = 0; i < n; ++i) dump(json_array_get_value(a, i));
		} break;
		case JSONString: {
			const char *s = json_value_get_string(v);
			printf("s ");
			puthex(s, strlen(s));
		} break;
		case JSONNumber: printf("n %.17g ", json_value_get_number(v)); break;
		case JSONBoolean: printf(json_value_get_boolean(v) == 1 ? "t " : "f "); break;
		case JSONNull: printf("0 "); break;
		default: printf("nil "); break;
	}
}
static void serial(const JSON_Value *v) { /* both forms, into buffers of exactly the announced size */
	for (int pretty = 0; pretty < 2; ++pretty) {
		size_t n = pretty ? json_serialization_size_pretty(v) : json_serialization_size(v);
		char *b = malloc(n);
		JSON_Status (*f)(const JSON_Value *, char *, size_t) = pretty ? json_serialize_to_buffer_pretty : json_serialize_to_buffer;
		if (f(v, b, n - 1) == JSONSuccess) printf("!short ");
		if (f(v, b, n) != JSONSuccess) printf("!fail ");
		if (strlen(b) + 1 != n) printf("!size ");
		char *s = pretty ? json_serialize_to_string_pretty(v) : json_serialize_to_string(v);
		if (strcmp(s, b)) printf("!differ ");
		puthex(b, strlen(b));
		JSON_Value *r = json_parse_string(b);
		if (!json_value_equals(v, r) || !json_value_equals(r, v)) printf("!parse ");
		json_value_free(r);
		json_free_serialized_string(s);
		free(b);
	}
}
static JSON_Object *root_of(JSON_Value *r) { return json_value_get_object(r); }

static void handle(void) {
	at = 1;
	if (!strcmp(tok[0], "parse")) {
		char *s = str();
		JSON_Value *v = json_parse_string(s);
		free(s);
		dump(v);
		if (v) {
			JSON_Value *c = json_value_deep_copy(v);
			if (!json_value_equals(v, c)) printf("!copy ");
			serial(v);
			json_value_free(v);
			dump(c);
			json_value_free(c);
		}
		return;
	}
	JSON_Value *root = rd();
	if (!strcmp(tok[0], "build")) {
		dump(root);
		serial(root);
		json_value_free(root);
		return;
	}
	while (at < ntok) { /* edit */
		char *op = tok[at++];
		JSON_Object *o = root_of(root);
		if (!strcmp(op, "copy")) {
			JSON_Value *c = json_value_deep_copy(root);
			json_value_free(root);
			root = c;
		} else if (!strcmp(op, "clear")) {
			printf("%d ", json_object_clear(o));
		} else if (!strcmp(op, "again")) {
			char *s = json_serialize_to_string_pretty(root);
			json_value_free(root);
			root = json_parse_string(s);
			json_free_serialized_string(s);
		} else {
			char *k = str();
			JSON_Status st = 99;
			if (!strcmp(op, "dset") || !strcmp(op, "set")) {
				JSON_Value *v = rd();
				st = op[0] == 'd' ? json_object_dotset_value(o, k, v) : json_object_set_value(o, k, v);
				if (st != JSONSuccess) json_value_free(v);
			} else if (!strcmp(op, "dstr")) {
				char *s = str();
				st = json_object_dotset_string(o, k, s);
				free(s);
			} else if (!strcmp(op, "str")) {
				char *s = str();
				st = json_object_set_string(o, k, s);
				free(s);
			} else if (!strcmp(op, "rem")) st = json_object_remove(o, k);
			else if (!strcmp(op, "drem")) st = json_object_dotremove(o, k);
			else if (!strcmp(op, "get")) {
				dump(json_object_get_value(o, k));
				st = 0;
			} else if (!strcmp(op, "dget")) {
				dump(json_object_dotget_value(o, k));
				st = 0;
			} else {
				JSON_Array *a = json_object_dotget_array(o, k);
				if (!strcmp(op, "aadd")) {
					JSON_Value *v = rd();
					st = a ? json_array_append_value(a, v) : JSONFailure;
					if (st != JSONSuccess) json_value_free(v);
				} else if (!strcmp(op, "arem")) {
					st = json_array_remove(a, atoi(tok[at++]));
				} else if (!strcmp(op, "arep")) {
					int i = atoi(tok[at++]);
					JSON_Value *v = rd();
					st = json_array_replace_value(a, i, v);
					if (st != JSONSuccess) json_value_free(v);
				} else if (!strcmp(op, "aclr")) st = a ? json_array_clear(a) : JSONFailure;
			}
			free(k);
			printf("%d ", st);
		}
		printf("| ");
	}
	dump(root);
	serial(root);
	json_value_free(root);
}

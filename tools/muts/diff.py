F="executor/mysql/diff.go"
M=[
("zero-either",F,"if a.IsZero() && b.IsZero() {","if a.IsZero() || b.IsZero() {"),
("zero-b",F,"if a.IsZero() && b.IsZero() {","if b.IsZero() {"),
("zero-a",F,"if a.IsZero() && b.IsZero() {","if a.IsZero() {"),
("nil-now",F,"if a.IsNil() && !b.IsNil() {\n\t\t\tdiff = true","if a.IsNil() && !b.IsNil() {\n\t\t\tdiff = !b.Elem().IsZero()"),
("nil-before",F,"if !a.IsNil() && b.IsNil() {\n\t\t\tdiff = true","if !a.IsNil() && b.IsNil() {\n\t\t\tdiff = !a.Elem().IsZero()"),
("emb-notag",F,'if field.Anonymous || hasValue(fieldTag, "embedded") {','if field.Anonymous {'),
("emb-noanon",F,'if field.Anonymous || hasValue(fieldTag, "embedded") {','if hasValue(fieldTag, "embedded") {'),
("emb-contains",F,"if strings.HasPrefix(strings.ToUpper(p), strings.ToUpper(attr)) {","if strings.Contains(strings.ToUpper(p), strings.ToUpper(attr)) {"),
("emb-case",F,"if strings.HasPrefix(strings.ToUpper(p), strings.ToUpper(attr)) {","if strings.HasPrefix(p, attr) {"),
("emb-first",F,"if strings.HasPrefix(strings.ToUpper(p), strings.ToUpper(attr)) {\n\t\t\treturn true\n\t\t}","return strings.HasPrefix(strings.ToUpper(p), strings.ToUpper(attr))"),
("skip-slices",F,"case a.CanInterface() && b.CanInterface():","case a.Kind() == reflect.Slice:\n\t\tdiff = a.Len() != b.Len()\n\tcase a.CanInterface() && b.CanInterface():"),
("map-len",F,"case a.CanInterface() && b.CanInterface():","case a.Kind() == reflect.Map && a.Len() == b.Len():\n\t\tfor _, k := range a.MapKeys() {\n\t\t\tif !b.MapIndex(k).IsValid() {\n\t\t\t\tdiff = true\n\t\t\t}\n\t\t}\n\tcase a.CanInterface() && b.CanInterface():"),
("default-same",F,"default:\n\t\tdiff = true","default:"),
("stop-first",F,"\t\t\tif _, diff := diffValue(fieldVal, prevFiledVal); diff {\n\t\t\t\tresult = append(result, fieldName)\n","\t\t\tif _, diff := diffValue(fieldVal, prevFiledVal); diff {\n\t\t\t\tresult = append(result, fieldName)\n\t\t\t\tbreak\n"),
("skip-id",F,"		fieldName := field.Name\n","		fieldName := field.Name\n		if fieldName == \"ID\" {\n			continue\n		}\n"),
("skip-zero",F,"		fieldName := field.Name\n","		fieldName := field.Name\n		if fieldVal.IsZero() {\n			continue\n		}\n"),
("skip-unexported",F,"		fieldName := field.Name\n","		fieldName := field.Name\n		if !fieldVal.CanInterface() {\n			continue\n		}\n"),
("nested-leaf",F,"result = append(result, fieldName)\n				}\n			}\n		} else {","result = append(result, structDiff...)\n				}\n			}\n		} else {"),
("anon-name",F,"result = append(result, structDiff...)","result = append(result, fieldName)"),
("shallow-ptr",F,"	a, b = reflect.Indirect(a), reflect.Indirect(b)\n	if !a.IsValid()","	if a.Kind() == reflect.Pointer && b.Kind() == reflect.Pointer {\n		diff = a.Pointer() != b.Pointer()\n		return\n	}\n	if !a.IsValid()"),
("time-sec",F,"	switch {\n	case a.Kind()","	switch {\n	case a.Type() == reflect.TypeOf(time.Time{}) && a.CanInterface():\n		diff = a.Interface().(time.Time).Unix() != b.Interface().(time.Time).Unix()\n	case a.Kind()",F,'"sync"\n','"sync"\n\t"time"\n'),
("time-before",F,"	switch {\n	case a.Kind()","	switch {\n	case a.Type() == reflect.TypeOf(time.Time{}) && a.CanInterface():\n		diff = b.Interface().(time.Time).Before(a.Interface().(time.Time))\n	case a.Kind()",F,'"sync"\n','"sync"\n\t"time"\n'),
("ok-timeequal",F,"	switch {\n	case a.Kind()","	switch {\n	case a.Type() == reflect.TypeOf(time.Time{}) && a.CanInterface() && b.CanInterface():\n		diff = !a.Interface().(time.Time).Equal(b.Interface().(time.Time))\n	case a.Kind()",F,'"sync"\n','"sync"\n\t"time"\n'),
("deep-always",F,"	case a.Comparable() && b.Comparable():\n		diff = !a.Equal(b)\n",""),
("ok-visible",F,"for i := 0; i < currVal.NumField(); i++ {","n := poType.NumField()\n	for i := 0; i != n; i++ {"),
("ok-hasfold",F,"if strings.HasPrefix(strings.ToUpper(p), strings.ToUpper(attr)) {","if len(p) >= len(attr) && strings.EqualFold(p[:len(attr)], attr) {"),
("ok-ifchain",F,"	if !a.IsValid() || !b.IsValid() {\n		if a.IsValid() {","	if va, vb := a.IsValid(), b.IsValid(); !va || !vb {\n		if va {"),
("deep-names",F,"fields = diffStruct(a, b)","if a.NumField() > 1 {\n			fields = diffStruct(a, b)\n		}"),
("value-only",F,"currVal, prevVal := reflect.Indirect(reflect.ValueOf(curr)), reflect.Indirect(reflect.ValueOf(prev))","currVal, prevVal := reflect.ValueOf(curr), reflect.ValueOf(prev)"),
("zerofloat",F,"	switch {\n	case a.Kind()","	switch {\n	case a.Kind() == reflect.Float64:\n		diff = int64(a.Float()) != int64(b.Float())\n	case a.Kind()"),
("int-trunc",F,"	switch {\n	case a.Kind()","	switch {\n	case a.Kind() == reflect.Int64:\n		diff = int32(a.Int()) != int32(b.Int())\n	case a.Kind()"),
("string-fold",F,"	switch {\n	case a.Kind()","	switch {\n	case a.Kind() == reflect.String:\n		diff = !strings.EqualFold(a.String(), b.String())\n	case a.Kind()"),
("any-type",F,"	switch {\n	case a.Kind()","	switch {\n	case a.Kind() == reflect.Interface:\n		diff = a.IsNil() != b.IsNil()\n	case a.Kind()"),
]

F="snapshot.go"
M=[
("k-noslice",F,"} else if fieldType.Kind() == reflect.Slice && fieldType.Elem().Implements(entityType) {","} else if fieldType.Kind() == reflect.Slice && fieldType.Elem() == entityType {"),
("k-nomap",F,"} else if fieldType.Kind() == reflect.Map && fieldType.Elem().Implements(entityType) {","} else if fieldType.Kind() == reflect.Map && fieldType.Key().Kind() == reflect.String && fieldType.Elem().Implements(entityType) {"),
("k-iface",F,"if fieldType.Implements(entityType) && fieldType != baseEntityType {","if fieldType.Kind() == reflect.Ptr && fieldType.Implements(entityType) && fieldType != baseEntityType {"),
("k-ifaceonly",F,"if fieldType.Implements(entityType) && fieldType != baseEntityType {","if fieldType == entityType {"),
("k-base",F,"if fieldType.Implements(entityType) && fieldType != baseEntityType {","if fieldType.Implements(entityType) {"),
("k-first",F,"					children[fieldName] = append(children[fieldName], fieldVal.Index(j).Interface().(IEntity))\n","					children[fieldName] = append(children[fieldName], fieldVal.Index(j).Interface().(IEntity))\n					break\n"),
("k-lastslice",F,"for j := 0; j < fieldVal.Len(); j++ {","for j := 1; j < fieldVal.Len(); j++ {"),
("k-unexported",F,"		if !fieldVal.CanInterface() {\n			continue\n		}\n","		if !fieldVal.CanInterface() && fieldType.Kind() != reflect.Slice {\n			continue\n		}\n"),
("k-stopunexp",F,"		if !fieldVal.CanInterface() {\n			continue\n		}\n","		if !fieldVal.CanInterface() {\n			break\n		}\n"),
("k-lenzero",F,"	if children != nil {\n		return children\n	}","	if len(children) > 0 {\n		return children\n	}"),
("k-merge",F,"	if children != nil {\n		return children\n	}\n","	declared := children\n	defer func() { for k, v := range declared { if children != nil { children[k] = v } } }()\n"),
("k-samekey",F,"				children[fieldName] = []IEntity{fieldVal.Interface().(IEntity)}","				children[\"Entity\"] = []IEntity{fieldVal.Interface().(IEntity)}"),
("k-typekey",F,"		fieldName := valType.Field(i).Name\n","		fieldName := valType.Field(i).Type.String()\n"),
("k-nofields",F,"for i := 0; i < val.NumField(); i++ {","for i := 1; i < val.NumField(); i++ {"),
("k-skipanon",F,"		// 非导出字段不处理\n","		if valType.Field(i).Anonymous {\n			break\n		}\n"),
("k-emptymap",F,"			if fieldVal.IsNil() {\n				children[fieldName] = []IEntity{}\n","			if fieldVal.IsNil() {\n				return children\n"),
("ok-switch",F,"		} else if fieldType.Kind() == reflect.Slice && fieldType.Elem().Implements(entityType) {\n			if fieldVal.Len() == 0 {\n				children[fieldName] = []IEntity{}\n			} else {","		} else if k := fieldType.Kind(); k == reflect.Slice && fieldType.Elem().Implements(entityType) {\n			children[fieldName] = make([]IEntity, 0, fieldVal.Len())\n			{"),
("ok-exported",F,"		if !fieldVal.CanInterface() {\n","		if !valType.Field(i).IsExported() {\n"),
("ok-range",F,"for _, j := range fieldVal.MapKeys() {\n					children[fieldName] = append(children[fieldName], fieldVal.MapIndex(j).Interface().(IEntity))","for it := fieldVal.MapRange(); it.Next(); {\n					children[fieldName] = append(children[fieldName], it.Value().Interface().(IEntity))"),
("ok-indirect",F,"	val := reflect.ValueOf(entity)\n	if val.Kind() == reflect.Ptr {\n		val = val.Elem()\n	}\n","	val := reflect.Indirect(reflect.ValueOf(entity))\n"),
("ok-seen",F,"		if _, in := children[fieldName]; in {\n			continue\n		}\n",""),
("ok-noempty",F,"			if fieldVal.IsNil() {\n				children[fieldName] = []IEntity{}\n			} else {\n","			if !fieldVal.IsNil() {\n"),
]

"""Reference definitions for C29: what the run of a component does."""


def marked(table, tag):
    return table.mapValues(lambda row: row + [tag]) if table else table


def both(a, b):
    if a and b:
        return a.union(b)
    return a if not b else b


def find(data_sets, name):
    found = None
    for key in data_sets:
        t = data_sets[key].get(name, None)
        if t:
            found = t
    return found


def run_data(self, data_sets=None, stage=None):
    train, held, data = find(data_sets, "train_data"), find(data_sets, "eval_data"), find(data_sets, "data")
    if not self.need_run:
        self.data_output = data
        return data
    if stage == "cross_validation":
        self.cross_validation(train)
    elif stage == "one_vs_rest":
        if train:
            self.one_vs_rest_fit(train)
            out = marked(self.one_vs_rest_predict(train), "train")
            if held:
                out = both(out, marked(self.one_vs_rest_predict(held), "validation"))
            self.data_output = out
            self.set_predict_data_schema(out, train.schema)
        elif held:
            out = marked(self.one_vs_rest_predict(held), "test")
            self.data_output = out
            if out:
                self.set_predict_data_schema(out, held.schema)
    elif train:
        self.set_flowid("train")
        self.fit(train)
        self.set_flowid("predict")
        out = marked(self.predict(train), "train")
        if held:
            self.set_flowid("validate")
            out = both(out, marked(self.predict(held), "validation"))
        self.data_output = out
        self.set_predict_data_schema(out, train.schema)
    elif held:
        self.set_flowid("predict")
        out = marked(self.predict(held), "test")
        self.data_output = out
        self.set_predict_data_schema(out, held.schema)
    elif stage == "fit":
        self.set_flowid("fit")
        self.data_output = self.fit(data)
    else:
        self.set_flowid("transform")
        self.data_output = self.transform(data)


def predict_schema(self, predict_datas, schema):
    if predict_datas is None:
        return
    predict_datas.schema = {"header": ["label", "predict_result", "predict_score", "predict_detail", "type"], "sid_name": schema.get("sid_name")}



def fresh(self):
    self.model_output = self.mode = self.data_output = self.model_param = self.transfer_variable = self.tracker = None
    self.flowid = self.taskid = ""
    self.need_run, self.need_cv, self.need_one_vs_rest, self.cv_fold = True, False, False, 0


def flow(self, flowid):
    self.flowid = self.taskid + "." + str(flowid)
    if self.transfer_variable is not None:
        self.transfer_variable.set_flowid(self.flowid)


def output(self):
    return self.data_output


def model(self):
    return self.model_output


def metric(self, name_prefix):
    return "_".join([str(name_prefix), str(self.flowid)]) if self.need_cv else name_prefix


def need(self, model_dict, model_meta_name):
    self.need_run = list(model_dict.get("model").values())[0].get(model_meta_name).need_run

"""Behaviour-preserving edits of the binding (py-forust/src/lib.rs): none may be
called different.  python3 tools/bindrefactors.py [name...]"""
import os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
R = {}
R['matrix_helper'] = [('''        let flat_data = flat_data.as_slice()?;
        let data = Matrix::new(flat_data, rows, cols);
        let parallel = parallel.unwrap_or(true);
        Ok(self.booster.predict(&data, parallel).into_pyarray(py))''', '''        let data = as_matrix(&flat_data, rows, cols)?;
        let predictions = self.booster.predict(&data, parallel.unwrap_or(true));
        Ok(predictions.into_pyarray(py))'''),
 ('fn to_value_error<', '''fn as_matrix<'a>(
    flat: &'a PyReadonlyArray1<f64>,
    rows: usize,
    cols: usize,
) -> PyResult<Matrix<'a, f64>> {
    let values = flat.as_slice()?;
    Ok(Matrix::new(values, rows, cols))
}

fn to_value_error<''')]
R['value_error_map'] = [('''        match self.booster.save_booster(path) {
            Ok(_) => Ok(()),
            Err(e) => Err(PyValueError::new_err(e.to_string())),
        }''', '''        to_value_error(self.booster.save_booster(path))'''),
 ('''        match self.booster.json_dump() {
            Ok(m) => Ok(m),
            Err(e) => Err(PyValueError::new_err(e.to_string())),
        }''', '''        to_value_error(self.booster.json_dump())'''),
 ('''        let booster = match CrateGradientBooster::load_booster(path.as_str()) {
            Ok(m) => Ok(m),
            Err(e) => Err(PyValueError::new_err(e.to_string())),
        }?;
        Ok(GradientBooster { booster })''', '''        let booster = to_value_error(CrateGradientBooster::load_booster(&path))?;
        Ok(Self { booster })'''),
 ('''        let booster = match CrateGradientBooster::from_json(json_str) {
            Ok(m) => Ok(m),
            Err(e) => Err(PyValueError::new_err(e.to_string())),
        }?;
        Ok(GradientBooster { booster })''', '''        to_value_error(CrateGradientBooster::from_json(json_str)).map(|booster| GradientBooster { booster })'''),
]
R['eval_collect'] = [('''        let evaluation_data_: Option<Vec<EvaluationData>> = match evaluation_data.as_ref() {
            None => None,
            Some(values) => {
                let mut eval_data = Vec::new();
                for (a, r, c, y_, w_) in values.iter() {
                    eval_data.push((
                        Matrix::new(a.as_slice()?, *r, *c),
                        y_.as_slice()?,
                        w_.as_slice()?,
                    ));
                }
                Some(eval_data)
            }
        };''', '''        let evaluation_data_: Option<Vec<EvaluationData>> = if let Some(values) = &evaluation_data {
            let mut eval_data: Vec<EvaluationData> = Vec::with_capacity(values.len());
            for value in values {
                let (a, r, c, y_, w_) = value;
                let matrix = Matrix::new(a.as_slice()?, *r, *c);
                let target = y_.as_slice()?;
                let weight = w_.as_slice()?;
                eval_data.push((matrix, target, weight));
            }
            Some(eval_data)
        } else {
            None
        };''')]
R['eval_try_collect'] = [(R['eval_collect'][0][0], '''        let evaluation_data_: Option<Vec<EvaluationData>> = match &evaluation_data {
            Some(values) => Some(
                values
                    .iter()
                    .map(|(a, r, c, y_, w_)| {
                        Ok((
                            Matrix::new(a.as_slice()?, *r, *c),
                            y_.as_slice()?,
                            w_.as_slice()?,
                        ))
                    })
                    .collect::<PyResult<Vec<EvaluationData>>>()?,
            ),
            None => None,
        };''')]
R['constraint_fn'] = [('''    let mut constraints: ConstraintMap = HashMap::new();
    for (f, c) in int_map.iter() {
        let c_ = match c {
                -1 => Ok(Constraint::Negative),
                1 => Ok(Constraint::Positive),
                0 => Ok(Constraint::Unconstrained),
                _ => Err(PyValueError::new_err(format!("Valid monotone constraints are -1, 1 or 0, but '{}' was provided for feature number {}.", c, f))),
            }?;
        constraints.insert(*f, c_);
    }
    Ok(constraints)''', '''    let mut constraints: ConstraintMap = HashMap::with_capacity(int_map.len());
    for (feature, value) in int_map {
        constraints.insert(feature, to_constraint(feature, value)?);
    }
    Ok(constraints)'''),
 ('fn to_value_error<', '''fn to_constraint(f: usize, c: i8) -> PyResult<Constraint> {
    match c {
        -1 => Ok(Constraint::Negative),
        0 => Ok(Constraint::Unconstrained),
        1 => Ok(Constraint::Positive),
        _ => Err(PyValueError::new_err(format!("Valid monotone constraints are -1, 1 or 0, but '{}' was provided for feature number {}.", c, f))),
    }
}

fn to_value_error<''')]
R['constraint_ret'] = [('''                _ => Err(PyValueError::new_err(format!("Valid monotone constraints are -1, 1 or 0, but '{}' was provided for feature number {}.", c, f))),
            }?;
        constraints.insert(*f, c_);''', '''                _ => return Err(PyValueError::new_err(format!("Valid monotone constraints are -1, 1 or 0, but '{}' was provided for feature number {}.", c, f))),
            };
        constraints.insert(*f, c_);'''), ('-1 => Ok(Constraint::Negative)', '-1 => Constraint::Negative'), ('1 => Ok(Constraint::Positive)', '1 => Constraint::Positive'), ('0 => Ok(Constraint::Unconstrained)', '0 => Constraint::Unconstrained')]
R['constraint_back_fn'] = [('''            .map(|(f, c)| {
                let c_ = match c {
                    Constraint::Negative => -1,
                    Constraint::Positive => 1,
                    Constraint::Unconstrained => 0,
                };
                (*f, c_)
            })
            .collect();''', '''            .map(|(f, c)| (*f, constraint_to_int(c)))
            .collect();'''),
 ('fn to_value_error<', '''fn constraint_to_int(c: &Constraint) -> i8 {
    match c {
        Constraint::Unconstrained => 0,
        Constraint::Negative => -1,
        Constraint::Positive => 1,
    }
}

fn to_value_error<''')]
R['constraint_back_iflet'] = [('''        let constraints: HashMap<usize, i8> = self
            .booster
            .monotone_constraints
            .as_ref()
            .unwrap_or(&HashMap::new())
            .iter()
            .map(|(f, c)| {
                let c_ = match c {
                    Constraint::Negative => -1,
                    Constraint::Positive => 1,
                    Constraint::Unconstrained => 0,
                };
                (*f, c_)
            })
            .collect();''', '''        let mut constraints: HashMap<usize, i8> = HashMap::new();
        if let Some(map) = &self.booster.monotone_constraints {
            for (f, c) in map {
                let c_ = match c {
                    Constraint::Negative => -1,
                    Constraint::Positive => 1,
                    Constraint::Unconstrained => 0,
                };
                constraints.insert(*f, c_);
            }
        }''')]
R['dump_display'] = [('''        let mut trees = Vec::new();
        for t in &self.booster.trees {
            trees.push(format!("{}", t));
        }
        Ok(trees)''', '''        let trees = self.booster.trees.iter().map(|t| t.to_string()).collect();
        Ok(trees)''')]
R['dump_index'] = [(R['dump_display'][0][0], '''        let n = self.booster.trees.len();
        let mut trees = Vec::with_capacity(n);
        for i in 0..n {
            let t = &self.booster.trees[i];
            trees.push(format!("{}", t));
        }
        Ok(trees)''')]
R['history_match'] = [('''        if let Some(data) = &self.booster.evaluation_history {
            let d = data.data.to_owned().into_pyarray(py);
            return Ok(Some((data.rows, data.cols, d)));
        }
        Ok(None)''', '''        let history = match &self.booster.evaluation_history {
            None => return Ok(None),
            Some(history) => history,
        };
        let values = history.data.clone().into_pyarray(py);
        Ok(Some((history.rows, history.cols, values)))''')]
R['history_map'] = [(R['history_match'][0][0], '''        Ok(self
            .booster
            .evaluation_history
            .as_ref()
            .map(|h| (h.rows, h.cols, h.data.to_vec().into_pyarray(py))))''')]
R['metadata_ok_or'] = [('''        match self.booster.get_metadata(&key) {
            Some(m) => Ok(m),
            None => Err(PyKeyError::new_err(format!(
                "No value associated with provided key {}",
                key
            ))),
        }''', '''        self.booster.get_metadata(&key).ok_or_else(|| {
            PyKeyError::new_err(format!("No value associated with provided key {}", key))
        })''')]
R['metric_map'] = [('''        let evaluation_metric_ = match evaluation_metric {
            Some(s) => Some(to_value_error(serde_plain::from_str(s))?),
            None => None,
        };''', '''        let evaluation_metric_ = evaluation_metric
            .map(|s| to_value_error(serde_plain::from_str(s)))
            .transpose()?;''')]
R['metric_iflet'] = [(R['metric_map'][0][0], '''        let mut evaluation_metric_ = None;
        if let Some(s) = evaluation_metric {
            evaluation_metric_ = Some(to_value_error(serde_plain::from_str(s))?);
        }''')]
R['metric_out'] = [('''        let evaluation_metric_ = match self.booster.evaluation_metric {
            None => None,
            Some(v) => serde_plain::to_string::<Metric>(&v).ok(),
        };''', '''        let evaluation_metric_ = self
            .booster
            .evaluation_metric
            .and_then(|v| serde_plain::to_string::<Metric>(&v).ok());''')]
R['sample_out'] = [('''        let sample_method_: Option<String> = match self.booster.sample_method {
            SampleMethod::None => None,
            _ => serde_plain::to_string::<SampleMethod>(&self.booster.sample_method).ok(),
        };''', '''        let sample_method_: Option<String> = match &self.booster.sample_method {
            SampleMethod::None => None,
            method => serde_plain::to_string(method).ok(),
        };''')]
R['sample_out_if'] = [(R['sample_out'][0][0], '''        let sample_method_: Option<String> =
            if matches!(self.booster.sample_method, SampleMethod::None) {
                None
            } else {
                serde_plain::to_string::<SampleMethod>(&self.booster.sample_method).ok()
            };''')]
R['sample_in'] = [('''        let sample_method_ = match sample_method {
            Some(s) => to_value_error(serde_plain::from_str(s))?,
            None => SampleMethod::None,
        };''', '''        let sample_method_ = if let Some(s) = sample_method {
            to_value_error(serde_plain::from_str(s))?
        } else {
            SampleMethod::None
        };''')]
R['new_q'] = [('''        Ok(GradientBooster {
            booster: to_value_error(booster)?,
        })''', '''        let booster = to_value_error(booster)?;
        Ok(GradientBooster { booster })''')]
R['setters'] = [('''        let map = int_map_to_constraint_map(value)?;
        self.booster.monotone_constraints = Some(map);
        Ok(())''', '''        self.booster.monotone_constraints = Some(int_map_to_constraint_map(value)?);
        Ok(())''')]
R['params_booster'] = [('''        let objective_ = to_value_error(serde_plain::to_string::<ObjectiveType>(
            &self.booster.objective_type,
        ))?;''', '''        let booster = &self.booster;
        let objective_ = to_value_error(serde_plain::to_string(&booster.objective_type))?;'''),
 ('("iterations", self.booster.iterations.to_object(py))', '("iterations", booster.iterations.to_object(py))'),
 ('("l1", self.booster.l1.to_object(py)),\n            ("l2", self.booster.l2.to_object(py)),', '("l2", booster.l2.to_object(py)),\n            ("l1", booster.l1.to_object(py)),')]
R['params_grow'] = [('''        let missing_node_treatment_ = to_value_error(
            serde_plain::to_string::<MissingNodeTreatment>(&self.booster.missing_node_treatment),
        )?;
''', ''), ('''        let grow_policy_: Option<String> =''', '''        let missing_node_treatment_ = to_value_error(
            serde_plain::to_string::<MissingNodeTreatment>(&self.booster.missing_node_treatment),
        )?;
        let grow_policy_: Option<String> =''')]
R['params_push'] = [('''        let key_vals: Vec<(&str, PyObject)> = vec![''', '''        let mut key_vals: Vec<(&str, PyObject)> = vec!['''),
 ('''            ("log_iterations", self.booster.log_iterations.to_object(py)),
            (
                "force_children_to_bound_parent",
                self.booster.force_children_to_bound_parent.to_object(py),
            ),
        ];''', '''            ("log_iterations", self.booster.log_iterations.to_object(py)),
        ];
        key_vals.push((
            "force_children_to_bound_parent",
            self.booster.force_children_to_bound_parent.to_object(py),
        ));''')]
R['fit_iferr'] = [('''        match self.booster.fit(&data, y, sample_weight, evaluation_data_) {
            Ok(m) => Ok(m),
            Err(e) => Err(PyValueError::new_err(e.to_string())),
        }?;
        Ok(())''', '''        if let Err(e) = self.booster.fit(&data, y, sample_weight, evaluation_data_) {
            return Err(PyValueError::new_err(e.to_string()));
        }
        Ok(())''')]
R['fit_maperr'] = [(R['fit_iferr'][0][0], '''        self.booster
            .fit(&data, y, sample_weight, evaluation_data_)
            .map_err(|e| PyValueError::new_err(e.to_string()))''')]
R['contrib_order'] = [('''        let parallel = parallel.unwrap_or(true);
        let method_ = to_value_error(serde_plain::from_str(method))?;
        Ok(self
            .booster
            .predict_contributions(&data, method_, parallel)
            .into_pyarray(py))''', '''        let method_ = to_value_error(serde_plain::from_str(method))?;
        let run_parallel = match parallel {
            Some(p) => p,
            None => true,
        };
        let contributions = self.booster.predict_contributions(&data, method_, run_parallel);
        Ok(contributions.into_pyarray(py))''')]
R['pct_inline'] = [('''    let v_ = v.as_slice()?;
    let sample_weight_ = sample_weight.as_slice()?;
    let percentiles_ = percentiles.as_slice()?;
    let p = crate_percentiles(v_, sample_weight_, percentiles_);
    Ok(p.into_pyarray(py))''', '''    Ok(crate_percentiles(v.as_slice()?, sample_weight.as_slice()?, percentiles.as_slice()?).into_pyarray(py))''')]
R['verr_maperr'] = [('''    match value {
        Ok(v) => Ok(v),
        Err(e) => Err(PyValueError::new_err(e.to_string())),
    }''', '''    value.map_err(|e| PyValueError::new_err(format!("{}", e)))''')]
CODE = '''
import sys; sys.path.insert(0,%r); sys.setrecursionlimit(100000)
import project
project.dump()
R,S,B,SB=project.load()
from equiv import *
E=Equiv(B,SB); E.vocab()
for k in sorted(E.anchors):
    r,h=E.verdict(k)
    if r!='EQ':
        print('  ',r,k)
        for o,rr,w,u in h[-1][1].outs:
            if rr!=EQ: print('       ',o,rr, (show(w[1],5)[:200],show(w[2],5)[:200],w[-1]) if w else (show(u[1],4)[:200],show(u[2],4)[:200],u[-1]) if isinstance(u,tuple) else u)
''' % (HERE + '/../engine')
if __name__ == '__main__':
    d = '/tmp/mrb'; src = '/repo/py-forust/src/lib.rs'
    if not os.path.isdir(d + '/repo'):
        os.makedirs(d, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        if os.path.isdir(HERE + '/../build'): subprocess.run(['cp', '-a', HERE + '/../build', d + '/build'])
    s0 = open(src).read()
    for n in sys.argv[1:] or list(R):
        t = s0
        for o, w in R[n]:
            if t.count(o) < 1: print(n, 'NOT FOUND', o[:80]); break
            t = t.replace(o, w, 1)
        open(d + '/repo/py-forust/src/lib.rs', 'w').write(t)
        env = dict(os.environ, FORUST_REPO=d + '/repo', FORUST_BUILD=d + '/build', PYTHONHASHSEED='0')
        r = subprocess.run([sys.executable, '-c', CODE], env=env, capture_output=True, text=True)
        print(n, 'ok' if r.returncode == 0 and not r.stdout.strip() else '\n' + r.stdout[:1500] + r.stderr[-700:], flush=True)
    open(d + '/repo/py-forust/src/lib.rs', 'w').write(s0)

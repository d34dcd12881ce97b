//! Network boundaries placed by hand: a physical optimizer rule that cuts a single-node plan into stages of seeded
//! task counts, the way the documentation on custom distributed plans tells users to do it.
use crate::data::SimScan;
use crate::prng::Rng;
use datafusion::common::{JoinType, Result};
use datafusion::config::ConfigOptions;
use datafusion::datasource::physical_plan::FileScanConfig;
use datafusion::datasource::source::DataSourceExec;
use datafusion::physical_expr::Partitioning;
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::physical_optimizer::sanity_checker::SanityCheckPlan;
use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::expressions::Column;
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode};
use datafusion::physical_plan::limit::GlobalLimitExec;
use datafusion::physical_plan::projection::ProjectionExec;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::{Distribution, ExecutionPlan, ExecutionPlanProperties, displayable};
use datafusion_distributed::{BroadcastExec, NetworkBroadcastExec, NetworkCoalesceExec, NetworkShuffleExec};
use std::sync::{Arc, Mutex};

type Plan = Arc<dyn ExecutionPlan>;

#[derive(Debug)]
pub struct HandPlaced {
    pub seed: u64,
    pub max: usize,
}

impl PhysicalOptimizerRule for HandPlaced {
    fn name(&self) -> &str {
        "hand_placed"
    }

    fn schema_check(&self) -> bool {
        true
    }

    fn optimize(&self, plan: Plan, config: &ConfigOptions) -> Result<Plan> {
        if mentions(&plan, &["RecursiveQueryExec", "WorkTableExec", "ScalarSubqueryExec", "AnalyzeExec", "ExplainExec"]) {
            return Ok(plan);
        }
        let p = Placer { rng: Mutex::new(Rng::new(self.seed)), max: self.max };
        let single = if plan.output_partitioning().partition_count() > 1 {
            Arc::new(CoalescePartitionsExec::new(plan.clone())) as Plan
        } else {
            plan.clone()
        };
        let placed = p.place(&single, 1, false)?;
        if !mentions(&placed, &["NetworkShuffleExec", "NetworkCoalesceExec", "NetworkBroadcastExec"]) {
            return Ok(plan);
        }
        // What a user can hand over has to be a valid plan.
        match SanityCheckPlan::new().optimize(placed, config) {
            Ok(placed) => {
                // Debugging aid.
                if std::env::var_os("DST_PLANS").is_some() {
                    eprintln!("{}", displayable(placed.as_ref()).indent(false));
                }
                Ok(placed)
            }
            Err(_) => Ok(plan),
        }
    }
}

fn mentions(plan: &Plan, names: &[&str]) -> bool {
    names.contains(&plan.name()) || plan.children().iter().any(|c| mentions(c, names))
}

fn hash(plan: &Plan) -> Option<&RepartitionExec> {
    plan.downcast_ref::<RepartitionExec>()
        .filter(|r| matches!(r.partitioning(), Partitioning::Hash(..)) && !r.preserve_order())
}

/// Whether all the ways down end in another stage.
fn closed(plan: &Plan) -> bool {
    hash(plan).is_some() || (!plan.children().is_empty() && plan.children().iter().all(|c| closed(c)))
}

/// One partition because the source has just one, not because it was brought together.
fn source(plan: &Plan) -> bool {
    match plan.children().as_slice() {
        [] => true,
        [c] => (plan.is::<ProjectionExec>() || plan.is::<FilterExec>()) && plan.fetch().is_none() && source(c),
        _ => false,
    }
}

/// Whether the stage with this head may run in several tasks.
fn splittable(plan: &Plan) -> bool {
    // A limit over one partition is a limit over all the rows.
    if plan.output_partitioning().partition_count() == 1 && plan.fetch().is_some() {
        return false;
    }
    if plan.is::<CoalescePartitionsExec>()
        || plan.is::<SortPreservingMergeExec>()
        || plan.is::<GlobalLimitExec>()
        || plan.downcast_ref::<SortExec>().is_some_and(|s| !s.preserve_partitioning())
    {
        return false;
    }
    if hash(plan).is_some() {
        return true;
    }
    let children = plan.children();
    if children.is_empty() {
        return plan.is::<SimScan>()
            || plan
                .downcast_ref::<DataSourceExec>()
                .is_some_and(|d| d.data_source().downcast_ref::<FileScanConfig>().is_some());
    }
    if plan.output_partitioning().partition_count() == 1 && !source(plan) {
        return false;
    }
    let broadcast = broadcastable(plan) as usize;
    for (child, need) in children.iter().zip(plan.required_input_distribution()).skip(broadcast) {
        let child: &Plan = child;
        match need {
            Distribution::SinglePartition => return false,
            Distribution::UnspecifiedDistribution => {}
            _ if !closed(child) => return false,
            _ => {}
        }
        if child.output_partitioning().partition_count() == 1
            && !(plan.is::<RepartitionExec>() || source(plan))
            && hash(child).is_none()
        {
            return false;
        }
    }
    children.iter().skip(broadcast).all(|c| splittable(c))
}

/// Joins that may run in several tasks if each has all of the left side.
fn broadcastable(plan: &Plan) -> bool {
    use JoinType::*;
    let safe = |t: &JoinType| matches!(t, Inner | Right | RightSemi | RightAnti | RightMark);
    if let Some(j) = plan.downcast_ref::<HashJoinExec>() {
        return *j.partition_mode() == PartitionMode::CollectLeft && safe(j.join_type());
    }
    plan.downcast_ref::<NestedLoopJoinExec>().is_some_and(|j| safe(j.join_type())) || plan.is::<CrossJoinExec>()
}

struct Placer {
    rng: Mutex<Rng>,
    max: usize,
}

impl Placer {
    fn tasks(&self, splittable: bool) -> usize {
        if splittable { self.rng.lock().unwrap().usize(1, self.max) } else { 1 }
    }

    fn pct(&self, p: u64) -> bool {
        self.rng.lock().unwrap().pct(p)
    }

    /// `plan`, which is part of a stage of `tasks` tasks, with boundaries. `keyed`: something above in the stage
    /// needs rows to be in the partition of their key.
    fn place(&self, plan: &Plan, tasks: usize, keyed: bool) -> Result<Plan> {
        if let Some(r) = hash(plan) {
            let producers = self.tasks(splittable(r.input()));
            let input = self.place(r.input(), producers, false)?;
            if producers == 1 && tasks == 1 && self.pct(50) {
                return plan.clone().with_new_children(vec![input]);
            }
            let head = Arc::new(RepartitionExec::try_new(input, r.partitioning().clone())?);
            return Ok(Arc::new(NetworkShuffleExec::try_new(head, producers)?));
        }
        let collects = plan.is::<CoalescePartitionsExec>() || plan.is::<SortPreservingMergeExec>();
        if collects && tasks == 1 && splittable(plan.children()[0]) {
            let collect = |input: Plan| plan.clone().with_new_children(vec![input]);
            let child: &Plan = plan.children()[0];
            let producers = self.tasks(true);
            let mut input = self.place(child, producers, false)?;
            if producers == 1 && self.pct(60) {
                return collect(input);
            }
            if self.pct(40) {
                input = collect(input)?;
            } else if plan.is::<CoalescePartitionsExec>() && self.pct(15) {
                // More or fewer streams from each task.
                let n = self.rng.lock().unwrap().usize(1, 5);
                input = Arc::new(RepartitionExec::try_new(input, Partitioning::RoundRobinBatch(n))?);
            }
            let mut from = producers;
            // A tree of coalescing stages.
            while from > 1 && self.pct(50) {
                let to = self.rng.lock().unwrap().usize(1, from);
                input = Arc::new(NetworkCoalesceExec::try_new(input, from, to)?);
                from = to;
                if self.pct(70) {
                    input = match child.downcast_ref::<AggregateExec>() {
                        Some(a) if *a.mode() == AggregateMode::Partial && plan.is::<CoalescePartitionsExec>() => {
                            let by = positional(a.group_expr());
                            let input = Arc::new(CoalescePartitionsExec::new(input));
                            match by {
                                Some(by) => Arc::new(AggregateExec::try_new(
                                    AggregateMode::PartialReduce,
                                    by,
                                    a.aggr_expr().to_vec(),
                                    a.filter_expr().to_vec(),
                                    input,
                                    a.input_schema(),
                                )?),
                                None => input as Plan,
                            }
                        }
                        _ => collect(input)?,
                    };
                }
                if to == 1 {
                    break;
                }
            }
            let input = Arc::new(NetworkCoalesceExec::try_new(input, from, 1)?);
            return collect(input);
        }
        let mut children = vec![];
        for (i, (child, need)) in plan.children().into_iter().zip(plan.required_input_distribution()).enumerate() {
            if i == 0 && broadcastable(plan) && (tasks > 1 || self.pct(30)) {
                let input = match child.downcast_ref::<CoalescePartitionsExec>() {
                    Some(c) if c.fetch().is_none() => c.input(),
                    _ => child,
                };
                let producers = self.tasks(splittable(input));
                let input = Arc::new(BroadcastExec::new(self.place(input, producers, false)?, 1));
                let input = Arc::new(NetworkBroadcastExec::try_new(input, producers)?);
                children.push(Arc::new(CoalescePartitionsExec::new(input)) as Plan);
                continue;
            }
            let keyed = match need {
                Distribution::UnspecifiedDistribution => keyed,
                Distribution::SinglePartition => false,
                _ => true,
            };
            if !keyed && (tasks == 1 || splittable(child)) && self.pct(10) {
                // A stage that ends below a row-wise operator, with all that is above it in the next one.
                let many = child.output_partitioning().partition_count() > 1;
                let from = if many && splittable(child) { self.rng.lock().unwrap().usize(tasks, self.max.max(tasks)) } else { tasks };
                let input = self.place(child, from, false)?;
                children.push(Arc::new(NetworkCoalesceExec::try_new(input, from, tasks)?) as Plan);
                continue;
            }
            children.push(self.place(child, tasks, keyed)?);
        }
        if children.is_empty() {
            return Ok(plan.clone());
        }
        plan.clone().with_new_children(children)
    }
}

/// The groups of a partial aggregate as columns of its output.
fn positional(by: &PhysicalGroupBy) -> Option<PhysicalGroupBy> {
    if !by.is_single() {
        return None;
    }
    let exprs = by
        .expr()
        .iter()
        .enumerate()
        .map(|(i, (_, name))| (Arc::new(Column::new(name, i)) as _, name.clone()))
        .collect();
    Some(PhysicalGroupBy::new_single(exprs))
}

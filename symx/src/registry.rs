macro_rules! reg {
	($( $prop:literal $tier:ident $name:literal $e:expr; )*) => {
		vec![ $( H { prop: $prop, tier: $tier, name: $name,
			sym: (|| { type R = Sym; $e }) as Fun,
			con: (|| { type R = Con; $e }) as Fun } ),* ]
	};
}

fn registry() -> Vec<H> {
	use h_containers as c;
	use h_interp as n;
	use h_iso as i;
	use h_more as m;
	use h_pattern as p;
	use h_structure as s;
	use h_terms as t;
	use h_text as x;
	use h_values as v;
	reg! {
		"C01" Q "C01 shared+1" c::history::<R, BTreeDataset<R>>(1, 1, 0, 50);
		"C01" Q "C01 vacated+1" c::history::<R, BTreeDataset<R>>(2, 1, 0, 50);
		"C01" Q "C01 roles+1" c::history::<R, BTreeDataset<R>>(9, 1, 0, 50);
		"C01" Q "C01 shared+2" c::history::<R, BTreeDataset<R>>(101, 2, 1, 3);
		"C01" Q "C01 vacated+2" c::history::<R, BTreeDataset<R>>(102, 2, 1, 3);
		"C01" Q "C01 roles+2" c::history::<R, BTreeDataset<R>>(109, 2, 1, 3);
		"C01" Q "C01 emptied+2" c::history::<R, BTreeDataset<R>>(110, 2, 1, 3);
		"C01" Q "C01 split+1" c::history::<R, BTreeDataset<R>>(103, 1, 1, 8);
		"C01" Q "C01 merge+1" c::history::<R, BTreeDataset<R>>(104, 1, 1, 8);
		"C01" Q "C01 history3" c::history::<R, BTreeDataset<R>>(0, 3, 0, 2);
		"C01" Q "C01 probe shared" c::probe::<R, BTreeDataset<R>>(1, 0, 0, 50);
		"C01" Q "C01 probe vacated" c::probe::<R, BTreeDataset<R>>(102, 1, 1, 3);
		"C01" Q "C01 probe merge" c::probe::<R, BTreeDataset<R>>(4, 0, 0, 80);
		"C01" T "C01 history4" c::history::<R, BTreeDataset<R>>(0, 4, 0, 2);
		"C01" T "C01 history3 wide" c::history::<R, BTreeDataset<R>>(0, 3, 0, 3);
		"C01" Q "C01 shared+3" c::history::<R, BTreeDataset<R>>(101, 3, 1, 3);
		"C01" Q "C01 vacated+3" c::history::<R, BTreeDataset<R>>(102, 3, 1, 3);
		"C01" Q "C01 big60+1" c::history::<R, BTreeDataset<R>>(105, 1, 1, 8);
		"C01" Q "C01 big60-+1" c::history::<R, BTreeDataset<R>>(106, 1, 1, 8);
		"C01" Q "C01 big150+1" c::history::<R, BTreeDataset<R>>(107, 1, 1, 8);
		"C01" Q "C01 big150-+1" c::history::<R, BTreeDataset<R>>(108, 1, 1, 8);
		"C01" Q "C01 wide+1" c::history::<R, BTreeDataset<R>>(111, 1, 1, 3);
		"C01" Q "C01 wide-+1" c::history::<R, BTreeDataset<R>>(112, 1, 1, 3);
		"C01" Q "C01 wide-+2" c::history::<R, BTreeDataset<R>>(112, 2, 1, 3);
		"C01" T "C01 wide2000+1" c::history::<R, BTreeDataset<R>>(113, 1, 1, 3);
		"C01" T "C01 wide2000-+1" c::history::<R, BTreeDataset<R>>(114, 1, 1, 3);
		"C02" Q "C02 shared+1" c::history::<R, IndexedBTreeDataset<R>>(1, 1, 0, 50);
		"C02" Q "C02 vacated+1" c::history::<R, IndexedBTreeDataset<R>>(2, 1, 0, 50);
		"C02" Q "C02 roles+1" c::history::<R, IndexedBTreeDataset<R>>(9, 1, 0, 50);
		"C02" Q "C02 shared+2" c::history::<R, IndexedBTreeDataset<R>>(101, 2, 1, 3);
		"C02" Q "C02 vacated+2" c::history::<R, IndexedBTreeDataset<R>>(102, 2, 1, 3);
		"C02" Q "C02 roles+2" c::history::<R, IndexedBTreeDataset<R>>(109, 2, 1, 3);
		"C02" Q "C02 emptied+2" c::history::<R, IndexedBTreeDataset<R>>(110, 2, 1, 3);
		"C02" Q "C02 split+1" c::history::<R, IndexedBTreeDataset<R>>(103, 1, 1, 8);
		"C02" Q "C02 merge+1" c::history::<R, IndexedBTreeDataset<R>>(104, 1, 1, 8);
		"C02" Q "C02 history3" c::history::<R, IndexedBTreeDataset<R>>(0, 3, 0, 2);
		"C02" Q "C02 probe shared" c::probe::<R, IndexedBTreeDataset<R>>(1, 0, 0, 50);
		"C02" Q "C02 probe vacated" c::probe::<R, IndexedBTreeDataset<R>>(102, 1, 1, 3);
		"C02" Q "C02 probe merge" c::probe::<R, IndexedBTreeDataset<R>>(4, 0, 0, 80);
		"C02" T "C02 history4" c::history::<R, IndexedBTreeDataset<R>>(0, 4, 0, 2);
		"C02" T "C02 history3 wide" c::history::<R, IndexedBTreeDataset<R>>(0, 3, 0, 3);
		"C02" Q "C02 shared+3" c::history::<R, IndexedBTreeDataset<R>>(101, 3, 1, 3);
		"C02" Q "C02 vacated+3" c::history::<R, IndexedBTreeDataset<R>>(102, 3, 1, 3);
		"C02" Q "C02 big60+1" c::history::<R, IndexedBTreeDataset<R>>(105, 1, 1, 8);
		"C02" Q "C02 big60-+1" c::history::<R, IndexedBTreeDataset<R>>(106, 1, 1, 8);
		"C02" Q "C02 big150+1" c::history::<R, IndexedBTreeDataset<R>>(107, 1, 1, 8);
		"C02" Q "C02 big150-+1" c::history::<R, IndexedBTreeDataset<R>>(108, 1, 1, 8);
		"C02" Q "C02 wide+1" c::history::<R, IndexedBTreeDataset<R>>(111, 1, 1, 3);
		"C02" Q "C02 wide-+1" c::history::<R, IndexedBTreeDataset<R>>(112, 1, 1, 3);
		"C02" Q "C02 wide-+2" c::history::<R, IndexedBTreeDataset<R>>(112, 2, 1, 3);
		"C02" T "C02 wide2000+1" c::history::<R, IndexedBTreeDataset<R>>(113, 1, 1, 3);
		"C02" T "C02 wide2000-+1" c::history::<R, IndexedBTreeDataset<R>>(114, 1, 1, 3);
		"C03" Q "C03 shared+1" c::history::<R, BTreeGraph<R>>(1, 1, 0, 50);
		"C03" Q "C03 vacated+1" c::history::<R, BTreeGraph<R>>(2, 1, 0, 50);
		"C03" Q "C03 roles+1" c::history::<R, BTreeGraph<R>>(9, 1, 0, 50);
		"C03" Q "C03 shared+2" c::history::<R, BTreeGraph<R>>(101, 2, 1, 3);
		"C03" Q "C03 vacated+2" c::history::<R, BTreeGraph<R>>(102, 2, 1, 3);
		"C03" Q "C03 roles+2" c::history::<R, BTreeGraph<R>>(109, 2, 1, 3);
		"C03" Q "C03 emptied+2" c::history::<R, BTreeGraph<R>>(110, 2, 1, 3);
		"C03" Q "C03 split+1" c::history::<R, BTreeGraph<R>>(103, 1, 1, 8);
		"C03" Q "C03 merge+1" c::history::<R, BTreeGraph<R>>(104, 1, 1, 8);
		"C03" Q "C03 history3" c::history::<R, BTreeGraph<R>>(0, 3, 0, 2);
		"C03" Q "C03 probe shared" c::probe::<R, BTreeGraph<R>>(1, 0, 0, 50);
		"C03" Q "C03 probe vacated" c::probe::<R, BTreeGraph<R>>(102, 1, 1, 3);
		"C03" Q "C03 probe merge" c::probe::<R, BTreeGraph<R>>(4, 0, 0, 80);
		"C03" T "C03 history4" c::history::<R, BTreeGraph<R>>(0, 4, 0, 2);
		"C03" T "C03 history3 wide" c::history::<R, BTreeGraph<R>>(0, 3, 0, 3);
		"C03" Q "C03 shared+3" c::history::<R, BTreeGraph<R>>(101, 3, 1, 3);
		"C03" Q "C03 vacated+3" c::history::<R, BTreeGraph<R>>(102, 3, 1, 3);
		"C03" Q "C03 big60+1" c::history::<R, BTreeGraph<R>>(105, 1, 1, 8);
		"C03" Q "C03 big60-+1" c::history::<R, BTreeGraph<R>>(106, 1, 1, 8);
		"C03" Q "C03 big150+1" c::history::<R, BTreeGraph<R>>(107, 1, 1, 8);
		"C03" Q "C03 big150-+1" c::history::<R, BTreeGraph<R>>(108, 1, 1, 8);
		"C03" Q "C03 wide+1" c::history::<R, BTreeGraph<R>>(111, 1, 1, 3);
		"C03" Q "C03 wide-+1" c::history::<R, BTreeGraph<R>>(112, 1, 1, 3);
		"C03" Q "C03 wide-+2" c::history::<R, BTreeGraph<R>>(112, 2, 1, 3);
		"C03" T "C03 wide2000+1" c::history::<R, BTreeGraph<R>>(113, 1, 1, 3);
		"C03" T "C03 wide2000-+1" c::history::<R, BTreeGraph<R>>(114, 1, 1, 3);
		"C04" Q "C04 shared+1" c::history::<R, IndexedBTreeGraph<R>>(1, 1, 0, 50);
		"C04" Q "C04 vacated+1" c::history::<R, IndexedBTreeGraph<R>>(2, 1, 0, 50);
		"C04" Q "C04 roles+1" c::history::<R, IndexedBTreeGraph<R>>(9, 1, 0, 50);
		"C04" Q "C04 shared+2" c::history::<R, IndexedBTreeGraph<R>>(101, 2, 1, 3);
		"C04" Q "C04 vacated+2" c::history::<R, IndexedBTreeGraph<R>>(102, 2, 1, 3);
		"C04" Q "C04 roles+2" c::history::<R, IndexedBTreeGraph<R>>(109, 2, 1, 3);
		"C04" Q "C04 emptied+2" c::history::<R, IndexedBTreeGraph<R>>(110, 2, 1, 3);
		"C04" Q "C04 split+1" c::history::<R, IndexedBTreeGraph<R>>(103, 1, 1, 8);
		"C04" Q "C04 merge+1" c::history::<R, IndexedBTreeGraph<R>>(104, 1, 1, 8);
		"C04" Q "C04 history3" c::history::<R, IndexedBTreeGraph<R>>(0, 3, 0, 2);
		"C04" Q "C04 probe shared" c::probe::<R, IndexedBTreeGraph<R>>(1, 0, 0, 50);
		"C04" Q "C04 probe vacated" c::probe::<R, IndexedBTreeGraph<R>>(102, 1, 1, 3);
		"C04" Q "C04 probe merge" c::probe::<R, IndexedBTreeGraph<R>>(4, 0, 0, 80);
		"C04" T "C04 history4" c::history::<R, IndexedBTreeGraph<R>>(0, 4, 0, 2);
		"C04" T "C04 history3 wide" c::history::<R, IndexedBTreeGraph<R>>(0, 3, 0, 3);
		"C04" Q "C04 shared+3" c::history::<R, IndexedBTreeGraph<R>>(101, 3, 1, 3);
		"C04" Q "C04 vacated+3" c::history::<R, IndexedBTreeGraph<R>>(102, 3, 1, 3);
		"C04" Q "C04 big60+1" c::history::<R, IndexedBTreeGraph<R>>(105, 1, 1, 8);
		"C04" Q "C04 big60-+1" c::history::<R, IndexedBTreeGraph<R>>(106, 1, 1, 8);
		"C04" Q "C04 big150+1" c::history::<R, IndexedBTreeGraph<R>>(107, 1, 1, 8);
		"C04" Q "C04 big150-+1" c::history::<R, IndexedBTreeGraph<R>>(108, 1, 1, 8);
		"C04" Q "C04 wide+1" c::history::<R, IndexedBTreeGraph<R>>(111, 1, 1, 3);
		"C04" Q "C04 wide-+1" c::history::<R, IndexedBTreeGraph<R>>(112, 1, 1, 3);
		"C04" Q "C04 wide-+2" c::history::<R, IndexedBTreeGraph<R>>(112, 2, 1, 3);
		"C04" T "C04 wide2000+1" c::history::<R, IndexedBTreeGraph<R>>(113, 1, 1, 3);
		"C04" T "C04 wide2000-+1" c::history::<R, IndexedBTreeGraph<R>>(114, 1, 1, 3);
		"C05" Q "C05 dataset shared" p::dataset::<R>(1, 0, true, 0, 50);
		"C05" Q "C05 dataset vacated" p::dataset::<R>(2, 0, false, 0, 50);
		"C05" Q "C05 dataset roles" p::dataset::<R>(9, 0, true, 0, 50);
		"C05" Q "C05 dataset two" p::dataset::<R>(0, 2, false, 0, 2);
		"C05" T "C05 dataset two mixed" p::dataset::<R>(0, 2, true, 0, 2);
		"C05" Q "C05 dataset vacated+1" p::dataset::<R>(102, 1, true, 1, 3);
		"C05" T "C05 dataset three" p::dataset::<R>(0, 3, true, 0, 2);
		"C05" T "C05 dataset merge" p::dataset::<R>(104, 0, false, 0, 20);
		"C05" Q "C05 dataset_queries shared" p::dataset_queries::<R>(1, 0, true, 0, 50);
		"C05" Q "C05 dataset_queries vacated" p::dataset_queries::<R>(2, 0, false, 0, 50);
		"C05" Q "C05 dataset_queries roles" p::dataset_queries::<R>(9, 0, true, 0, 50);
		"C05" Q "C05 dataset_queries two" p::dataset_queries::<R>(0, 2, false, 0, 2);
		"C05" T "C05 dataset_queries two mixed" p::dataset_queries::<R>(0, 2, true, 0, 2);
		"C05" Q "C05 dataset_queries vacated+1" p::dataset_queries::<R>(102, 1, true, 1, 3);
		"C05" T "C05 dataset_queries three" p::dataset_queries::<R>(0, 3, true, 0, 2);
		"C05" T "C05 dataset_queries merge" p::dataset_queries::<R>(104, 0, false, 0, 20);
		"C06" Q "C06 graph shared" p::graph::<R>(1, 0, true, 0, 50);
		"C06" Q "C06 graph vacated" p::graph::<R>(2, 0, false, 0, 50);
		"C06" Q "C06 graph roles" p::graph::<R>(9, 0, true, 0, 50);
		"C06" Q "C06 graph two" p::graph::<R>(0, 2, true, 0, 2);
		"C06" Q "C06 graph vacated+1" p::graph::<R>(102, 1, true, 1, 3);
		"C06" T "C06 graph three" p::graph::<R>(0, 3, true, 0, 2);
		"C06" T "C06 graph merge" p::graph::<R>(104, 0, false, 0, 20);
		"C06" Q "C06 graph_queries shared" p::graph_queries::<R>(1, 0, true, 0, 50);
		"C06" Q "C06 graph_queries vacated" p::graph_queries::<R>(2, 0, false, 0, 50);
		"C06" Q "C06 graph_queries roles" p::graph_queries::<R>(9, 0, true, 0, 50);
		"C06" Q "C06 graph_queries two" p::graph_queries::<R>(0, 2, true, 0, 2);
		"C06" Q "C06 graph_queries vacated+1" p::graph_queries::<R>(102, 1, true, 1, 3);
		"C06" T "C06 graph_queries three" p::graph_queries::<R>(0, 3, true, 0, 2);
		"C06" T "C06 graph_queries merge" p::graph_queries::<R>(104, 0, false, 0, 20);
		"C07" Q "C07 two pats" p::multi::<R>(101, 0, true, 2, 1, 3);
		"C07" T "C07 two quads two pats" p::multi::<R>(0, 2, false, 2, 0, 2);
		"C07" Q "C07 two pats wide" p::multi::<R>(1, 0, true, 2, 0, 50);
		"C07" Q "C07 two pats vacated" p::multi::<R>(102, 1, true, 2, 1, 3);
		"C07" T "C07 three pats" p::multi::<R>(101, 0, false, 3, 1, 3);
		"C08" Q "C08 extract shared" p::extract::<R>(1, 0, true, 0, 50);
		"C08" Q "C08 extract vacated" p::extract::<R>(2, 0, false, 0, 50);
		"C08" Q "C08 extract two" p::extract::<R>(0, 2, false, 0, 2);
		"C08" T "C08 extract two mixed" p::extract::<R>(0, 2, true, 0, 2);
		"C08" Q "C08 extract vacated+1" p::extract::<R>(102, 1, true, 1, 3);
		"C08" T "C08 extract three" p::extract::<R>(0, 3, true, 0, 2);
		"C08" T "C08 extract merge" p::extract::<R>(104, 0, false, 0, 20);
		"C08" Q "C08 remove_graph shared" p::remove_graph::<R>(1, 0, true, 0, 50);
		"C08" Q "C08 remove_graph vacated" p::remove_graph::<R>(2, 0, false, 0, 50);
		"C08" Q "C08 remove_graph two" p::remove_graph::<R>(0, 2, true, 0, 2);
		"C08" Q "C08 remove_graph vacated+1" p::remove_graph::<R>(102, 1, true, 1, 3);
		"C08" T "C08 remove_graph three" p::remove_graph::<R>(0, 3, true, 0, 2);
		"C08" T "C08 remove_graph merge" p::remove_graph::<R>(104, 0, false, 0, 20);
		"C09" Q "C09 index_dataset shared" s::index_dataset::<R>(101, 0, 1, 1, 4);
		"C09" Q "C09 index_dataset vacated" s::index_dataset::<R>(102, 0, 1, 1, 4);
		"C09" Q "C09 index_dataset merge" s::index_dataset::<R>(104, 0, 1, 1, 8);
		"C09" Q "C09 index_dataset one+1" s::index_dataset::<R>(0, 1, 1, 0, 2);
		"C09" Q "C09 index_dataset vacated+1+1" s::index_dataset::<R>(102, 1, 1, 1, 3);
		"C09" T "C09 index_dataset shared wide" s::index_dataset::<R>(1, 0, 1, 0, 50);
		"C09" T "C09 index_dataset two+1" s::index_dataset::<R>(0, 2, 1, 0, 2);
		"C09" T "C09 index_dataset vacated+1+2" s::index_dataset::<R>(102, 1, 2, 1, 3);
		"C09" Q "C09 index_graph shared" s::index_graph::<R>(1, 0, 1, 0, 50);
		"C09" Q "C09 index_graph vacated" s::index_graph::<R>(2, 0, 1, 0, 50);
		"C09" Q "C09 index_graph merge" s::index_graph::<R>(104, 0, 1, 1, 8);
		"C09" Q "C09 index_graph one+1" s::index_graph::<R>(0, 1, 1, 0, 2);
		"C09" Q "C09 index_graph vacated+1+1" s::index_graph::<R>(102, 1, 1, 1, 3);
		"C09" T "C09 index_graph two+1" s::index_graph::<R>(0, 2, 1, 0, 2);
		"C09" T "C09 index_graph vacated+1+2" s::index_graph::<R>(102, 1, 2, 1, 3);
		"C10" Q "C10 ext 2v1 D" s::extensional::<R, BTreeDataset<R>>(0, 0, 2, 1, 0, 2);
		"C10" Q "C10 ext vacated v vacated D" s::extensional::<R, BTreeDataset<R>>(102, 102, 1, 1, 1, 3);
		"C10" Q "C10 ext shared v vacated D" s::extensional::<R, BTreeDataset<R>>(1, 2, 1, 0, 0, 50);
		"C10" Q "C10 permuted 2 D" s::permuted::<R, BTreeDataset<R>>(0, 2, 0, 2);
		"C10" Q "C10 permuted vacated 2 D" s::permuted::<R, BTreeDataset<R>>(102, 2, 1, 3);
		"C10" T "C10 permuted 3 D" s::permuted::<R, BTreeDataset<R>>(0, 3, 0, 2);
		"C10" T "C10 ext 2v2 D" s::extensional::<R, BTreeDataset<R>>(0, 0, 2, 2, 0, 2);
		"C10" T "C10 ext merge v split D" s::extensional::<R, BTreeDataset<R>>(104, 103, 1, 0, 1, 8);
		"C10" Q "C10 clone vacated+1 D" s::clones::<R, BTreeDataset<R>>(102, 1, 1, 3);
		"C10" T "C10 clone merge D" s::clones::<R, BTreeDataset<R>>(104, 1, 1, 3);
		"C22" Q "C22 bulk two D" s::bulk::<R, BTreeDataset<R>>(0, 2, 0, 2);
		"C21" Q "C21 serde two D" s::serde_container::<R, BTreeDataset<R>>(0, 2, 0, 2);
		"C23" Q "C23 display two D" s::display::<R, BTreeDataset<R>>(0, 2, 0, 2);
		"C22" Q "C22 bulk vacated+1 D" s::bulk::<R, BTreeDataset<R>>(102, 1, 1, 3);
		"C21" Q "C21 serde vacated+1 D" s::serde_container::<R, BTreeDataset<R>>(102, 1, 1, 3);
		"C23" Q "C23 display vacated+1 D" s::display::<R, BTreeDataset<R>>(102, 1, 1, 3);
		"C22" Q "C22 bulk three D" s::bulk::<R, BTreeDataset<R>>(0, 3, 0, 2);
		"C21" T "C21 serde three D" s::serde_container::<R, BTreeDataset<R>>(0, 3, 0, 2);
		"C23" T "C23 display three D" s::display::<R, BTreeDataset<R>>(0, 3, 0, 2);
		"C21" Q "C21 any2 D" s::deserialize_any::<R, BTreeDataset<R>>(2, 0, 2);
		"C21" Q "C21 any3 D" s::deserialize_any::<R, BTreeDataset<R>>(3, 0, 2);
		"C10" Q "C10 ext 2v1 ID" s::extensional::<R, IndexedBTreeDataset<R>>(0, 0, 2, 1, 0, 2);
		"C10" Q "C10 ext vacated v vacated ID" s::extensional::<R, IndexedBTreeDataset<R>>(102, 102, 1, 1, 1, 3);
		"C10" Q "C10 ext shared v vacated ID" s::extensional::<R, IndexedBTreeDataset<R>>(1, 2, 1, 0, 0, 50);
		"C10" Q "C10 permuted 2 ID" s::permuted::<R, IndexedBTreeDataset<R>>(0, 2, 0, 2);
		"C10" Q "C10 permuted vacated 2 ID" s::permuted::<R, IndexedBTreeDataset<R>>(102, 2, 1, 3);
		"C10" T "C10 permuted 3 ID" s::permuted::<R, IndexedBTreeDataset<R>>(0, 3, 0, 2);
		"C10" T "C10 ext 2v2 ID" s::extensional::<R, IndexedBTreeDataset<R>>(0, 0, 2, 2, 0, 2);
		"C10" T "C10 ext merge v split ID" s::extensional::<R, IndexedBTreeDataset<R>>(104, 103, 1, 0, 1, 8);
		"C10" Q "C10 clone vacated+1 ID" s::clones::<R, IndexedBTreeDataset<R>>(102, 1, 1, 3);
		"C10" T "C10 clone merge ID" s::clones::<R, IndexedBTreeDataset<R>>(104, 1, 1, 3);
		"C22" Q "C22 bulk two ID" s::bulk::<R, IndexedBTreeDataset<R>>(0, 2, 0, 2);
		"C21" Q "C21 serde two ID" s::serde_container::<R, IndexedBTreeDataset<R>>(0, 2, 0, 2);
		"C23" Q "C23 display two ID" s::display::<R, IndexedBTreeDataset<R>>(0, 2, 0, 2);
		"C22" Q "C22 bulk vacated+1 ID" s::bulk::<R, IndexedBTreeDataset<R>>(102, 1, 1, 3);
		"C21" Q "C21 serde vacated+1 ID" s::serde_container::<R, IndexedBTreeDataset<R>>(102, 1, 1, 3);
		"C23" Q "C23 display vacated+1 ID" s::display::<R, IndexedBTreeDataset<R>>(102, 1, 1, 3);
		"C22" Q "C22 bulk three ID" s::bulk::<R, IndexedBTreeDataset<R>>(0, 3, 0, 2);
		"C21" T "C21 serde three ID" s::serde_container::<R, IndexedBTreeDataset<R>>(0, 3, 0, 2);
		"C23" T "C23 display three ID" s::display::<R, IndexedBTreeDataset<R>>(0, 3, 0, 2);
		"C21" Q "C21 any2 ID" s::deserialize_any::<R, IndexedBTreeDataset<R>>(2, 0, 2);
		"C21" Q "C21 any3 ID" s::deserialize_any::<R, IndexedBTreeDataset<R>>(3, 0, 2);
		"C10" Q "C10 ext 2v1 G" s::extensional::<R, BTreeGraph<R>>(0, 0, 2, 1, 0, 2);
		"C10" Q "C10 ext vacated v vacated G" s::extensional::<R, BTreeGraph<R>>(102, 102, 1, 1, 1, 3);
		"C10" Q "C10 ext shared v vacated G" s::extensional::<R, BTreeGraph<R>>(1, 2, 1, 0, 0, 50);
		"C10" Q "C10 permuted 2 G" s::permuted::<R, BTreeGraph<R>>(0, 2, 0, 2);
		"C10" Q "C10 permuted vacated 2 G" s::permuted::<R, BTreeGraph<R>>(102, 2, 1, 3);
		"C10" T "C10 permuted 3 G" s::permuted::<R, BTreeGraph<R>>(0, 3, 0, 2);
		"C10" T "C10 ext 2v2 G" s::extensional::<R, BTreeGraph<R>>(0, 0, 2, 2, 0, 2);
		"C10" T "C10 ext merge v split G" s::extensional::<R, BTreeGraph<R>>(104, 103, 1, 0, 1, 8);
		"C10" Q "C10 clone vacated+1 G" s::clones::<R, BTreeGraph<R>>(102, 1, 1, 3);
		"C10" T "C10 clone merge G" s::clones::<R, BTreeGraph<R>>(104, 1, 1, 3);
		"C22" Q "C22 bulk two G" s::bulk::<R, BTreeGraph<R>>(0, 2, 0, 2);
		"C21" Q "C21 serde two G" s::serde_container::<R, BTreeGraph<R>>(0, 2, 0, 2);
		"C23" Q "C23 display two G" s::display::<R, BTreeGraph<R>>(0, 2, 0, 2);
		"C22" Q "C22 bulk vacated+1 G" s::bulk::<R, BTreeGraph<R>>(102, 1, 1, 3);
		"C21" Q "C21 serde vacated+1 G" s::serde_container::<R, BTreeGraph<R>>(102, 1, 1, 3);
		"C23" Q "C23 display vacated+1 G" s::display::<R, BTreeGraph<R>>(102, 1, 1, 3);
		"C22" Q "C22 bulk three G" s::bulk::<R, BTreeGraph<R>>(0, 3, 0, 2);
		"C21" T "C21 serde three G" s::serde_container::<R, BTreeGraph<R>>(0, 3, 0, 2);
		"C23" T "C23 display three G" s::display::<R, BTreeGraph<R>>(0, 3, 0, 2);
		"C21" Q "C21 any2 G" s::deserialize_any::<R, BTreeGraph<R>>(2, 0, 2);
		"C21" Q "C21 any3 G" s::deserialize_any::<R, BTreeGraph<R>>(3, 0, 2);
		"C10" Q "C10 ext 2v1 IG" s::extensional::<R, IndexedBTreeGraph<R>>(0, 0, 2, 1, 0, 2);
		"C10" Q "C10 ext vacated v vacated IG" s::extensional::<R, IndexedBTreeGraph<R>>(102, 102, 1, 1, 1, 3);
		"C10" Q "C10 ext shared v vacated IG" s::extensional::<R, IndexedBTreeGraph<R>>(1, 2, 1, 0, 0, 50);
		"C10" Q "C10 permuted 2 IG" s::permuted::<R, IndexedBTreeGraph<R>>(0, 2, 0, 2);
		"C10" Q "C10 permuted vacated 2 IG" s::permuted::<R, IndexedBTreeGraph<R>>(102, 2, 1, 3);
		"C10" T "C10 permuted 3 IG" s::permuted::<R, IndexedBTreeGraph<R>>(0, 3, 0, 2);
		"C10" T "C10 ext 2v2 IG" s::extensional::<R, IndexedBTreeGraph<R>>(0, 0, 2, 2, 0, 2);
		"C10" T "C10 ext merge v split IG" s::extensional::<R, IndexedBTreeGraph<R>>(104, 103, 1, 0, 1, 8);
		"C10" Q "C10 clone vacated+1 IG" s::clones::<R, IndexedBTreeGraph<R>>(102, 1, 1, 3);
		"C10" T "C10 clone merge IG" s::clones::<R, IndexedBTreeGraph<R>>(104, 1, 1, 3);
		"C22" Q "C22 bulk two IG" s::bulk::<R, IndexedBTreeGraph<R>>(0, 2, 0, 2);
		"C21" Q "C21 serde two IG" s::serde_container::<R, IndexedBTreeGraph<R>>(0, 2, 0, 2);
		"C23" Q "C23 display two IG" s::display::<R, IndexedBTreeGraph<R>>(0, 2, 0, 2);
		"C22" Q "C22 bulk vacated+1 IG" s::bulk::<R, IndexedBTreeGraph<R>>(102, 1, 1, 3);
		"C21" Q "C21 serde vacated+1 IG" s::serde_container::<R, IndexedBTreeGraph<R>>(102, 1, 1, 3);
		"C23" Q "C23 display vacated+1 IG" s::display::<R, IndexedBTreeGraph<R>>(102, 1, 1, 3);
		"C22" Q "C22 bulk three IG" s::bulk::<R, IndexedBTreeGraph<R>>(0, 3, 0, 2);
		"C21" T "C21 serde three IG" s::serde_container::<R, IndexedBTreeGraph<R>>(0, 3, 0, 2);
		"C23" T "C23 display three IG" s::display::<R, IndexedBTreeGraph<R>>(0, 3, 0, 2);
		"C21" Q "C21 any2 IG" s::deserialize_any::<R, IndexedBTreeGraph<R>>(2, 0, 2);
		"C21" Q "C21 any3 IG" s::deserialize_any::<R, IndexedBTreeGraph<R>>(3, 0, 2);
		"C11" Q "C11 view shared" p::graph_as_dataset::<R>(1, 0, true, 0, 50);
		"C11" Q "C11 view vacated" p::graph_as_dataset::<R>(2, 0, false, 0, 50);
		"C11" Q "C11 view vacated+1" p::graph_as_dataset::<R>(102, 1, true, 1, 3);
		"C11" T "C11 view two" p::graph_as_dataset::<R>(0, 2, true, 0, 2);
		"C11" Q "C11 traverse shared" p::graph_as_dataset_traversal::<R>(1, 0, 0, 50);
		"C11" Q "C11 traverse vacated" p::graph_as_dataset_traversal::<R>(2, 0, 0, 50);
		"C11" Q "C11 traverse vacated+1" p::graph_as_dataset_traversal::<R>(102, 1, 1, 3);
		"C11" T "C11 traverse two" p::graph_as_dataset_traversal::<R>(0, 2, 0, 2);
		"C12" Q "C12 1v1 quad" i::decide::<R>(1, 1, 2, Shape::Quad);
		"C12" Q "C12 2v2 edge" i::decide::<R>(2, 2, 2, Shape::Edge);
		"C12" Q "C12 1v2 edge" i::decide::<R>(1, 2, 2, Shape::Edge);
		"C12" Q "C12 1v1 triple" i::decide::<R>(1, 1, 3, Shape::Triple);
		"C12" Q "C12 2v2 blank3" i::decide::<R>(2, 2, 3, Shape::Blank);
		"C12" T "C12 3v3 blank3" i::decide::<R>(3, 3, 3, Shape::Blank);
		"C12" T "C12 2v2 triple" i::decide::<R>(2, 2, 2, Shape::Triple);
		"C12" T "C12 2v2 quad" i::decide::<R>(2, 2, 2, Shape::Quad);
		"C12" Q "C12 1v1 names" i::decide::<R>(1, 1, 1, Shape::Names);
		"C12" Q "C12 perturb tie0" i::perturb::<R>(10, 1, 0);
		"C12" Q "C12 perturb tie1" i::perturb::<R>(11, 1, 1);
		"C12" Q "C12 perturb tie2" i::perturb::<R>(12, 1, 2);
		"C12" Q "C12 perturb tie3" i::perturb::<R>(13, 1, 3);
		"C12" Q "C12 perturb tie4" i::perturb::<R>(14, 1, 0);
		"C12" Q "C12 perturb tie5" i::perturb::<R>(15, 1, 1);
		"C12" Q "C12 perturb tie6" i::perturb::<R>(16, 1, 2);
		"C12" Q "C12 perturb tie7" i::perturb::<R>(17, 1, 3);
		"C12" Q "C12 perturb tie8" i::perturb::<R>(18, 1, 0);
		"C12" Q "C12 perturb tie9" i::perturb::<R>(19, 1, 1);
		"C12" Q "C12 perturb tie10" i::perturb::<R>(20, 1, 2);
		"C12" Q "C12 perturb tie11" i::perturb::<R>(21, 1, 3);
		"C12" Q "C12 apart 1 2 0" i::apart::<R>(1, 2, 0);
		"C12" Q "C12 apart 1 2 2" i::apart::<R>(1, 2, 2);
		"C12" Q "C12 apart 3 4 0" i::apart::<R>(3, 4, 0);
		"C12" Q "C12 apart 3 4 1" i::apart::<R>(3, 4, 1);
		"C12" Q "C12 apart 5 6 0" i::apart::<R>(5, 6, 0);
		"C13" Q "C13 relabel 0 0" i::relabel::<R>(0, 0);
		"C13" Q "C13 relabel 0 1" i::relabel::<R>(0, 1);
		"C13" Q "C13 relabel 0 2" i::relabel::<R>(0, 2);
		"C13" Q "C13 relabel 0 3" i::relabel::<R>(0, 3);
		"C13" Q "C13 relabel 1 0" i::relabel::<R>(1, 0);
		"C13" Q "C13 relabel 1 1" i::relabel::<R>(1, 1);
		"C13" T "C13 relabel 1 2" i::relabel::<R>(1, 2);
		"C13" T "C13 relabel 1 3" i::relabel::<R>(1, 3);
		"C13" Q "C13 relabel 2 0" i::relabel::<R>(2, 0);
		"C13" Q "C13 relabel 2 1" i::relabel::<R>(2, 1);
		"C13" T "C13 relabel 2 2" i::relabel::<R>(2, 2);
		"C13" T "C13 relabel 2 3" i::relabel::<R>(2, 3);
		"C13" Q "C13 relabel 3 0" i::relabel::<R>(3, 0);
		"C13" Q "C13 relabel 3 1" i::relabel::<R>(3, 1);
		"C13" T "C13 relabel 3 2" i::relabel::<R>(3, 2);
		"C13" T "C13 relabel 3 3" i::relabel::<R>(3, 3);
		"C13" Q "C13 relabel 4 0" i::relabel::<R>(4, 0);
		"C13" Q "C13 relabel 4 1" i::relabel::<R>(4, 1);
		"C13" T "C13 relabel 4 2" i::relabel::<R>(4, 2);
		"C13" T "C13 relabel 4 3" i::relabel::<R>(4, 3);
		"C13" Q "C13 relabel 5 0" i::relabel::<R>(5, 0);
		"C13" Q "C13 relabel 5 1" i::relabel::<R>(5, 1);
		"C13" T "C13 relabel 5 2" i::relabel::<R>(5, 2);
		"C13" T "C13 relabel 5 3" i::relabel::<R>(5, 3);
		"C13" Q "C13 relabel 6 0" i::relabel::<R>(6, 0);
		"C13" Q "C13 relabel 6 1" i::relabel::<R>(6, 1);
		"C13" T "C13 relabel 6 2" i::relabel::<R>(6, 2);
		"C13" T "C13 relabel 6 3" i::relabel::<R>(6, 3);
		"C13" Q "C13 relabel tie0" i::relabel::<R>(10, 0);
		"C13" Q "C13 relabel tie1" i::relabel::<R>(11, 1);
		"C13" Q "C13 relabel tie2" i::relabel::<R>(12, 2);
		"C13" Q "C13 relabel tie3" i::relabel::<R>(13, 3);
		"C13" Q "C13 relabel tie4" i::relabel::<R>(14, 0);
		"C13" Q "C13 relabel tie5" i::relabel::<R>(15, 1);
		"C13" Q "C13 relabel tie6" i::relabel::<R>(16, 2);
		"C13" Q "C13 relabel tie7" i::relabel::<R>(17, 3);
		"C13" Q "C13 relabel tie8" i::relabel::<R>(18, 0);
		"C13" Q "C13 relabel tie9" i::relabel::<R>(19, 1);
		"C13" Q "C13 relabel tie10" i::relabel::<R>(20, 2);
		"C13" Q "C13 relabel tie11" i::relabel::<R>(21, 3);
		"C12" T "C12 perturb2 tie0" i::perturb::<R>(10, 2, 0);
		"C12" T "C12 perturb2 tie1" i::perturb::<R>(11, 2, 1);
		"C12" T "C12 perturb2 tie2" i::perturb::<R>(12, 2, 2);
		"C12" T "C12 perturb2 tie3" i::perturb::<R>(13, 2, 3);
		"C12" T "C12 perturb2 tie4" i::perturb::<R>(14, 2, 0);
		"C12" T "C12 perturb2 tie5" i::perturb::<R>(15, 2, 1);
		"C12" T "C12 perturb2 tie6" i::perturb::<R>(16, 2, 2);
		"C12" T "C12 perturb2 tie7" i::perturb::<R>(17, 2, 3);
		"C12" T "C12 perturb2 tie8" i::perturb::<R>(18, 2, 0);
		"C12" T "C12 perturb2 tie9" i::perturb::<R>(19, 2, 1);
		"C12" T "C12 perturb2 tie10" i::perturb::<R>(20, 2, 2);
		"C12" T "C12 perturb2 tie11" i::perturb::<R>(21, 2, 3);
		"C12" Q "C12 perturb 0" i::perturb::<R>(0, 1, 0);
		"C12" T "C12 perturb 1" i::perturb::<R>(1, 1, 1);
		"C12" T "C12 perturb 2" i::perturb::<R>(2, 1, 2);
		"C12" Q "C12 perturb 3" i::perturb::<R>(3, 1, 3);
		"C12" Q "C12 perturb 4" i::perturb::<R>(4, 1, 0);
		"C12" T "C12 perturb 5" i::perturb::<R>(5, 1, 1);
		"C12" T "C12 perturb 6" i::perturb::<R>(6, 1, 2);
		"C13" Q "C13 complete 1 quad" i::complete::<R>(1, 3, Shape::Quad);
		"C13" Q "C13 complete 2 edge" i::complete::<R>(2, 3, Shape::Edge);
		"C13" Q "C13 complete 2 triple" i::complete::<R>(2, 2, Shape::Triple);
		"C13" Q "C13 complete 3 blank" i::complete::<R>(3, 3, Shape::Blank);
		"C13" T "C13 complete 2 quad" i::complete::<R>(2, 2, Shape::Quad);
		"C13" T "C13 complete 4 blank" i::complete::<R>(4, 3, Shape::Blank);
		"C13" T "C13 complete 3 blank4" i::complete::<R>(3, 4, Shape::Blank);
		"C13" T "C13 complete 3 edge" i::complete::<R>(3, 2, Shape::Edge);
		"C13" Q "C13 symmetric 1 quad" i::symmetric::<R>(1, 2, Shape::Quad);
		"C13" Q "C13 symmetric 2 blank" i::symmetric::<R>(2, 3, Shape::Blank);
		"C13" T "C13 symmetric 2 edge" i::symmetric::<R>(2, 2, Shape::Edge);
		"C05" Q "C05 defaults shared" m::dataset_defaults::<R>(1, 0, 0, 50);
		"C05" Q "C05 defaults vacated" m::dataset_defaults::<R>(2, 0, 0, 50);
		"C05" T "C05 defaults vacated+1" m::dataset_defaults::<R>(102, 1, 1, 3);
		"C05" Q "C05 failing" m::failing_dataset::<R>(1, 0, 50);
		"C06" Q "C06 defaults shared" m::graph_defaults::<R>(1, 0, 0, 50);
		"C06" Q "C06 defaults vacated" m::graph_defaults::<R>(2, 0, 0, 50);
		"C06" T "C06 defaults vacated+1" m::graph_defaults::<R>(102, 1, 1, 3);
		"C06" Q "C06 failing" m::failing_graph::<R>(1, 0, 50);
		"C07" Q "C07 two lists" p::multi2::<R>(101, 0, 2, 1, 3);
		"C07" Q "C07 two lists any number" p::multi2::<R>(101, 0, 0, 1, 3);
		"C07" T "C07 two lists wide" p::multi2::<R>(1, 0, 2, 0, 50);
		"C07" T "C07 two lists vacated+1" p::multi2::<R>(102, 1, 2, 1, 3);
		"C10" Q "C10 across 2v1" m::across::<R>(2, 1, 0, 2);
		"C10" T "C10 across 2v2" m::across::<R>(2, 2, 0, 2);
		"C22" Q "C22 counts D vacated+1" m::dataset_counts::<R>(102, 1, 1, 3);
		"C22" Q "C22 counts D two" m::dataset_counts::<R>(0, 2, 0, 2);
		"C22" Q "C22 counts G vacated+1" m::graph_counts::<R>(102, 1, 1, 3);
		"C22" Q "C22 counts G two" m::graph_counts::<R>(0, 2, 0, 2);
		"C22" Q "C22 minimal" m::minimal_mut::<R>(1, 0, 50);
		"C09" Q "C09 terms" t::index_terms::<R>();
		"C12" Q "C12 lexical 1" t::lexical_isomorphism::<R>(1);
		"C13" Q "C13 lexical 2" t::lexical_isomorphism::<R>(2);
		"C12" T "C12 lexical 3" t::lexical_isomorphism::<R>(3);
		"C21" Q "C21 terms" t::serde_terms::<R>();
		"C23" Q "C23 terms" t::display_terms::<R>();
		"C20" Q "C20 lexical" t::lexical::<R>();
		"C14" Q "C14 convert_triple" v::convert_triple::<R>();
		"C15" Q "C15 convert_quad" v::convert_quad::<R>();
		"C16" Q "C16 quad_pattern_access" v::quad_pattern_access::<R>();
		"C16" Q "C16 triple_pattern_access" v::triple_pattern_access::<R>();
		"C17" Q "C17 setters" v::setters::<R>();
		"C19" Q "C19 pattern_relations" v::pattern_relations::<R>();
		"C19" Q "C19 quad_relations" v::quad_relations::<R>();
		"C19" Q "C19 triple_relations" v::triple_relations::<R>();
		"C19" Q "C19 partial_order" v::partial_order::<R>();
		"C19" Q "C19 resource_or_var" v::resource_or_var::<R>();
		"C20" Q "C20 quad_structure" v::quad_structure::<R>();
		"C20" Q "C20 triple_structure" v::triple_structure::<R>();
		"C31" Q "C31 numbering" t::numbering::<R>();
		"C30" Q "C30 labels" x::labels::<R>();
		"C32" Q "C32 string_type" n::string_type::<R>();
		"C32" Q "C32 displayed" x::displayed::<R>();
		"C33" Q "C33 literal forms" x::literal_forms::<R>();
		"C33" Q "C33 literal pairs" x::literal_pairs::<R>();
		"C34" Q "C34 term forms" x::term_forms::<R>();
		"C34" Q "C34 term pairs" x::term_pairs::<R>();
		"C35" Q "C35 lookup" n::lookup::<R>();
		"C35" Q "C35 insert" n::insert::<R>();
		"C35" Q "C35 reverse 2" n::reverse::<R>(2);
		"C35" Q "C35 reverse 3" n::reverse::<R>(3);
		"C35" T "C35 reverse 5" n::reverse::<R>(5);
		"C35" Q "C35 generative 1" n::generative::<R>(1);
		"C35" Q "C35 generative 2" n::generative::<R>(2);
		"C35" T "C35 generative 3" n::generative::<R>(3);
		"C35" Q "C35 traverse" n::traverse::<R>();
		"C35" Q "C35 transparent" n::transparent::<R>();
		"C18" Q "C18 map 1 2" v::pattern_map::<R>(1, 2);
		"C18" Q "C18 map 2 2" v::pattern_map::<R>(2, 2);
		"C18" T "C18 map 3 1" v::pattern_map::<R>(3, 1);
		"C18" Q "C18 union 1 1" v::pattern_map_union::<R>(1, 1);
		"C18" T "C18 union 2 1" v::pattern_map_union::<R>(2, 1);
	}
}

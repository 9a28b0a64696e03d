class WeatherMap(object):

    @holds("", {"store:WeatherMap.model": "W01", "store:WeatherMap.util_ranges": "W01", "store:WeatherMap.spacing_factor": "W01",
                "store:WeatherMap.failed_interface_color": "W01", "store:WeatherMap.no_selected_interface_text": "W02",
                "store:WeatherMap.no_selected_demand_text": "W02", "store:WeatherMap.no_selected_lsp_text": "W02"})
    def __init__(self, model):
        self.model = model
        self.spacing_factor = 5
        self.failed_interface_color = "dimgrey"
        self.no_selected_interface_text = "no int selected"
        self.no_selected_demand_text = "no routed demand selected"
        self.no_selected_lsp_text = "no routed lsp selected"
        self.util_ranges = {"0-24": "royalblue", "25-49": "green", "50-74": "yellow", "75-89": "orangered",
                            "90-99": "darkred", "100+": "darkviolet", "failed": "dimgrey"}

    @holds("", {"ret": "W01"})
    def make_json_node(self, x, y, id, label, midpoint=False, neighbors=[], failed=False):
        data = {"id": id, "label": label, "group": "midpoint" if midpoint else "", "failed": str(failed)}
        if midpoint and neighbors:
            data["neighbors"] = neighbors
        return {"position": {"x": x, "y": y}, "data": data}

    @holds("", {"ret": "W01"})
    def make_json_edge(self, source_id, target_id, edge_name, capacity, circuit_id, utilization, util_ranges, cost):
        if utilization == "Int is down":
            color = self.failed_interface_color
        elif utilization >= 100:
            color = util_ranges["100+"]
        else:
            color = None
            for r in util_ranges.keys():
                try:
                    lower = int(r.split("-")[0])
                    upper = int(r.split("-")[1])
                    if lower <= utilization < upper + 1:
                        color = util_ranges[r]
                        break
                except (ValueError, IndexError):
                    pass
        return {"data": {"source": source_id, "target": target_id, "group": color, "circuit_id": circuit_id,
                         "utilization": utilization, "interface-name": edge_name, "capacity": capacity, "cost": cost}}

    @holds("", {"ret": "W01 W02"})
    def format_objects_for_display(self, object_list):
        return [{"label": x.__repr__(),
                 "value": json.dumps({"source": x.source_node_object.name, "dest": x.dest_node_object.name,
                                      "name": x.name if isinstance(object_list[0], Demand) and not isinstance(object_list[0], RSVP_LSP)
                                      else x.lsp_name})}
                for x in object_list]

    @holds("", {"ret": "W01 W02"})
    def format_interfaces_for_display(self, interface_list):
        return [{"label": x.__repr__(),
                 "value": json.dumps({"source": x.node_object.name, "interface-name": x.name,
                                      "dest": x.remote_node_object.name, "circuit_id": x.circuit_id, "cost": x.cost})}
                for x in interface_list]

    @holds("", {"ret": "W01"})
    def find_demand_interfaces_and_lsps(self, dmds):
        lsps = {hop for d in dmds for path in d.path for hop in path if isinstance(hop, RSVP_LSP)}
        links = {i for d in dmds for path in d.path for hop in path
                 for i in (hop.path["interfaces"] if isinstance(hop, RSVP_LSP) else [hop])}
        return links, lsps

    @holds("", {"ret": "W01", "raise": "W01"})
    def get_sources(self, destination, object_type):
        if object_type == "demand":
            groups = self.model.parallel_demand_groups()
        elif object_type == "lsp":
            groups = self.model.parallel_lsp_groups()
        else:
            raise Exception("object_type")
        return [k.split("-")[0] for k in groups.keys() if k.split("-")[1] == destination]

    @holds("", {"ret": "W01", "raise": "W01"})
    def get_destinations(self, src, object_type):
        if object_type == "demand":
            groups = self.model.parallel_demand_groups()
        elif object_type == "lsp":
            groups = self.model.parallel_lsp_groups()
        else:
            raise Exception("object_type")
        return [k.split("-")[1] for k in groups.keys() if k.split("-")[0] == src]

    @holds("", {"ret": "W01"})
    def get_lsp_interface_data(self, model, lsp_data):
        links = model.get_rsvp_lsp(lsp_data["source"], lsp_data["dest"], lsp_data["name"]).path["interfaces"]
        return links, {n for i in links for n in (i.node_object.name, i.remote_node_object.name)}

    @holds("", {"ret": "W01"})
    def create_elements(self, group_midpoints=True):
        f = self.spacing_factor
        nodes, edges = [], []
        for c in self.model.circuit_objects:
            a, b = c.interface_a, c.interface_b
            na, nb = a.node_object, b.node_object
            ckt_id = str(a.circuit_id)
            if group_midpoints:
                mid = "midpoint-{}-{}".format(na.name, nb.name)
            else:
                mid = "midpoint-{}".format(ckt_id)
            nodes.append(self.make_json_node((na.lon * f + nb.lon * f) / 2, (-na.lat * f + -nb.lat * f) / 2, mid, mid,
                                             midpoint=True, neighbors=[na.name, nb.name]))
            for n in (na, nb):
                nodes.append(self.make_json_node(n.lon * f, -n.lat * f, n.name, n.name, failed=n.failed))
            for i in (a, b):
                edges.append(self.make_json_edge(i.node_object.name, mid, i.name, a.capacity, ckt_id, i.utilization,
                                                 self.util_ranges, i.cost))
        return nodes + edges

    @holds("", {"ret": "W01"})
    def utilization_display_info(self):
        return [{"label": r, "value": color} for r, color in self.util_ranges.items()]

    @property
    @holds("", {"ret": "W01"})
    def util_display_options(self):
        return [{"label": r, "value": color} for r, color in self.util_ranges.items()]

    @holds("", {"ret": "W01"})
    def demand_sources_and_destinations(self):
        keys = self.model.parallel_demand_groups().keys()
        return sorted({k.split("-")[0] for k in keys}), sorted({k.split("-")[1] for k in keys})

    @holds("", {"ret": "W01"})
    def lsp_sources_and_destinations(self):
        keys = self.model.parallel_lsp_groups().keys()
        return sorted({k.split("-")[0] for k in keys}), sorted({k.split("-")[1] for k in keys})

    @holds("", {"ret": "W01"})
    def make_node_list(self):
        return [{"label": name, "value": name} for name in sorted([n.name for n in self.model.node_objects])]

    @holds("", {"call:component cytoscape-prototypes": "W01", "call:component find-node": "W01",
                "call:component utilization-dropdown-callback": "W01"})
    def make_app_layout(self):
        colors = [color for r, color in self.util_ranges.items()]
        return html.Div(children=[
            cyto.Cytoscape(id="cytoscape-prototypes", elements=self.create_elements()),
            dcc.Dropdown(id="find-node", options=self.make_node_list()),
            dcc.Dropdown(id="utilization-dropdown-callback", options=self.utilization_display_info(), value=colors)])

    @holds("", {"call:callback": "W01", "mut": "W01"})
    def create_weathermap(self):
        app, model = self.app, self.model
        no_int, no_dmd, no_lsp = self.no_selected_interface_text, self.no_selected_demand_text, self.no_selected_lsp_text
        blank = json.dumps([{"source": "", "dest": "", "name": ""}])
        app.layout = self.make_app_layout()

        def nothing(text):
            return json.dumps({"label": text, "value": ""})

        def choice(text, options):
            null = {"label": text, "value": ""}
            if len(options) > 0 and null not in options:
                return [null] + options
            return options

        def selector(link, node):
            return 'edge[circuit_id="{}"][source="{}"]'.format(link.circuit_id, node.name)

        def options_of(names):
            return [{"label": n, "value": n} for n in names]

        @app.callback(Output("interfaces-on-node", "options"), [Input("find-node", "value")])
        def interfaces_on_node(node):
            if not node:
                raise PreventUpdate
            links = model.get_node_object(node).interfaces(model)
            return choice(no_int, self.format_interfaces_for_display(links))

        @app.callback(
            Output("cytoscape-prototypes", "stylesheet"),
            [Input("cytoscape-prototypes", "selectedEdgeData"), Input("utilization-dropdown-callback", "value"),
             Input("selected-demand-output", "children"), Input("selected-interface-output", "children"),
             Input("selected-lsp-output", "children")])
        def update_stylesheet(data, colors, demand, interface, lsp):
            style = [{"selector": 'edge[group="{}"]'.format(c), "style": {"opacity": 1.0}} for c in colors]
            if (demand is not None and demand != ""
                    and json.loads(demand) != [{"source": "", "dest": "", "name": ""}]
                    and json.loads(demand) != {"label": no_dmd, "value": ""}
                    and '"routed": false' not in demand):
                d = json.loads(demand)
                try:
                    dmds = model.parallel_demand_groups()["{}-{}".format(d["source"], d["dest"])]
                except KeyError:
                    return self.default_stylesheet + style
                for i in self.find_demand_interfaces_and_lsps(dmds)[0]:
                    style.append({"selector": selector(i, i.node_object), "style": {
                        "width": str(self.demand_interface_width), "line-style": "dashed",
                        "target-arrow-color": self.demand_color, "target-arrow-shape": "triangle",
                        "mid-target-arrow-color": self.demand_color, "mid-target-arrow-shape": "triangle",
                        "source-arrow-color": self.demand_color, "source-arrow-shape": "square",
                        "arrow-scale": ".9", "zIndex": 1000}})
                    style.append({"selector": selector(i, i.remote_node_object), "style": {
                        "width": str(self.demand_interface_width), "line-style": "dashed",
                        "source-arrow-color": self.demand_color, "source-arrow-shape": "triangle",
                        "mid-source-arrow-color": self.demand_color, "mid-source-arrow-shape": "triangle",
                        "target-arrow-color": self.demand_color, "target-arrow-shape": "square",
                        "arrow-scale": ".9", "zIndex": 1000}})
                    style.append({"selector": 'node[id="{}"]'.format(i.node_object.name),
                                  "style": {"background-color": self.demand_color}})
                    style.append({"selector": 'node[id="{}"]'.format(i.remote_node_object.name),
                                  "style": {"background-color": self.demand_color}})
            if lsp and no_lsp not in lsp and '"routed": false' not in lsp:
                links, names = self.get_lsp_interface_data(model, json.loads(lsp))
                for i in links:
                    style.append({"selector": selector(i, i.node_object), "style": {
                        "line-style": "dashed", "width": str(self.lsp_interface_width), "target-arrow-shape": "chevron",
                        "arrow-scale": ".9", "target-arrow-color": self.lsp_color, "z-axis": 2000}})
                    style.append({"selector": selector(i, i.remote_node_object), "style": {
                        "line-style": "dashed", "source-arrow-shape": "chevron", "arrow-scale": ".9",
                        "source-arrow-color": self.lsp_color, "z-axis": 2000}})
                for n in names:
                    style.append({"selector": 'node[id="{}"]'.format(n), "style": {
                        "border-color": self.lsp_color, "border-width": "5px", "width": "45px", "height": "30px"}})
            if interface and no_int not in interface:
                i = json.loads(interface)
                style.append({"selector": 'edge[source="{}"][circuit_id="{}"]'.format(i["source"], i["circuit_id"]),
                              "style": {"line-style": "dotted", "width": str(self.selected_interface_width)}})
            return self.default_stylesheet + style

        @app.callback(
            [Output("lsp-source-callback", "options"), Output("lsp-destination-callback", "options"),
             Output("find-lsps-callback", "options")],
            [Input("lsp-source-callback", "value"), Input("lsp-destination-callback", "value")])
        def display_lsp_dropdowns(source, dest):
            groups = model.parallel_lsp_groups()
            if source is None and dest is None:
                sources, dests = self.lsp_sources_and_destinations()
                found = [{"label": "", "value": ""}]
            elif source is not None and dest is not None:
                sources, dests = [source], [dest]
                found = self.format_objects_for_display(groups["{}-{}".format(source, dest)])
            elif source is None:
                sources, dests = sorted(self.get_sources(dest, object_type="lsp")), [dest]
                found = self.format_objects_for_display([x for k in groups.keys() if k.split("-")[1] == dest for x in groups[k]])
            else:
                sources, dests = [source], sorted(self.get_destinations(source, object_type="lsp"))
                found = self.format_objects_for_display([x for k in groups.keys() if k.split("-")[0] == source for x in groups[k]])
            return options_of(sources), options_of(dests), choice(no_lsp, found)

        @app.callback(
            [Output("demand-source-callback", "options"), Output("demand-destination-callback", "options"),
             Output("find-demands-callback", "options")],
            [Input("demand-source-callback", "value"), Input("demand-destination-callback", "value")])
        def display_demand_dropdowns(source, dest):
            groups = model.parallel_demand_groups()
            if source is None and dest is None:
                sources, dests = self.demand_sources_and_destinations()
                found = [{"label": "", "value": ""}]
            elif source is not None and dest is not None:
                sources, dests = [source], [dest]
                found = self.format_objects_for_display(groups["{}-{}".format(source, dest)])
            elif source is None:
                sources, dests = sorted(self.get_sources(dest, object_type="demand")), [dest]
                found = self.format_objects_for_display([x for k in groups.keys() if k.split("-")[1] == dest for x in groups[k]])
            else:
                sources, dests = [source], sorted(self.get_destinations(source, object_type="demand"))
                found = self.format_objects_for_display([x for k in groups.keys() if k.split("-")[0] == source for x in groups[k]])
            return options_of(sources), options_of(dests), choice(no_dmd, found)

        @app.callback(
            Output("selected-lsp-output", "children"),
            [Input("demand-path-lsps", "value"), Input("find-lsps-callback", "value"),
             Input("interface-lsp-callback", "value"), Input("clear-lsp-button", "n_clicks")])
        def display_selected_lsp(path_lsps, find_lsps, interface_lsps, clear_lsp_button):
            t = dash.callback_context.triggered[0]
            v = t["value"]
            if t["prop_id"] == "clear-lsp-button.n_clicks" or v is None or v == "" or v in [no_dmd, no_int]:
                return nothing(no_lsp)
            if v == blank:
                raise PreventUpdate
            info = json.loads(v)
            info["routed"] = model.get_rsvp_lsp(info["source"], info["dest"], info["name"]).path != "Unrouted"
            return json.dumps(info)

        @app.callback(
            Output("selected-interface-output", "children"),
            [Input("cytoscape-prototypes", "selectedEdgeData"), Input("demand-path-interfaces", "value"),
             Input("interfaces-on-node", "value"), Input("lsp-interface-callback", "value"),
             Input("clear-int-button", "n_clicks")])
        def display_selected_edge(map_edge, demand_interface, node_interface, lsp_interface, clear_int_button):
            t = dash.callback_context.triggered[0]
            v = t["value"]
            if (t["prop_id"] == "clear-int-button.n_clicks" or v == ""
                    or not (t["prop_id"] == "cytoscape-prototypes.selectedEdgeData" and len(v) > 0)
                    and (t["prop_id"] == "." or v == no_dmd)):
                info = nothing(no_int)
            elif t["prop_id"] == "cytoscape-prototypes.selectedEdgeData" and len(v) > 0:
                e = v[0]
                info = json.dumps({
                    "source": e["source"], "interface-name": e["interface-name"],
                    "dest": [x for x in e["target"].split("-")[1:] if x != e["source"]][0],
                    "circuit_id": e["circuit_id"], "utilization %": e["utilization"], "cost": e["cost"]})
            elif v == []:
                raise PreventUpdate
            else:
                i = json.loads(v)
                if no_dmd not in i:
                    info = json.dumps({
                        "source": i["source"], "interface-name": i["interface-name"], "dest": i["dest"],
                        "circuit_id": i["circuit_id"],
                        "utilization %": model.get_interface_object(i["interface-name"], i["source"]).utilization,
                        "cost": i["cost"]})
            return info

        @app.callback(
            Output("selected-demand-output", "children"),
            [Input("interface-demand-callback", "value"), Input("find-demands-callback", "value"),
             Input("lsp-demand-callback", "value"), Input("clear-dmd-button", "n_clicks")])
        def display_selected_demand_data(int_demand, src_dest_demand, dmd_on_lsp, clear_dmd_button):
            t = dash.callback_context.triggered[0]
            v = t["value"]
            if t["prop_id"] == "clear-dmd-button.n_clicks" or v is None or v == "" or v in [no_lsp, no_int]:
                return nothing(no_dmd)
            if v == blank:
                raise PreventUpdate
            info = json.loads(v)
            info["routed"] = model.get_demand_object(info["source"], info["dest"], info["name"]).path != "Unrouted"
            return json.dumps(info)

        @app.callback(Output("interface-lsp-callback", "options"), [Input("selected-interface-output", "children")])
        def lsps_on_interface(info):
            if not info or no_int in info:
                return [{"label": no_int, "value": ""}]
            i = json.loads(info)
            found = model.get_interface_object(i["interface-name"], i["source"]).lsps(model)
            if len(found) == 0:
                return [{"label": "no lsps on interface", "value": blank}]
            return choice(no_lsp, self.format_objects_for_display(found))

        @app.callback(Output("interface-demand-callback", "options"), [Input("selected-interface-output", "children")])
        def demands_on_interface(info):
            if not info or no_int in info:
                return [{"label": no_int, "value": ""}]
            i = json.loads(info)
            found = model.get_interface_object(i["interface-name"], i["source"]).demands(model)
            if len(found) == 0:
                return [{"label": "no demands on interface", "value": blank}]
            return choice(no_dmd, self.format_objects_for_display(found))

        @app.callback(Output("lsp-demand-callback", "options"), [Input("selected-lsp-output", "children")])
        def demands_on_lsp(info):
            if not info or no_lsp in info or '"routed": false' in info:
                return [{"label": no_lsp, "value": ""}]
            i = json.loads(info)
            found = model.get_rsvp_lsp(i["source"], i["dest"], i["name"]).demands_on_lsp(model)
            if len(found) == 0:
                return [{"label": "no demands on lsp", "value": blank}]
            return choice(no_dmd, self.format_objects_for_display(found))

        @app.callback(
            [Output("demand-path-interfaces", "options"), Output("demand-path-lsps", "options")],
            [Input("selected-demand-output", "children")])
        def demand_interfaces(info):
            if info and '"routed": false' in info:
                raise PreventUpdate
            if not info or no_dmd in info:
                return options_of([no_dmd]), options_of([no_dmd])
            i = json.loads(info)
            links, lsps = self.find_demand_interfaces_and_lsps([model.get_demand_object(i["source"], i["dest"], i["name"])])
            if not lsps:
                ls = [{"label": "Demand does not take LSPs", "value": ""}]
            else:
                ls = choice(no_lsp, self.format_objects_for_display(list(lsps)))
            return choice(no_int, self.format_interfaces_for_display(links)), ls

        @app.callback(Output("lsp-interface-callback", "options"), [Input("selected-lsp-output", "children")])
        def lsp_interfaces(info):
            if info and '"routed": false' in info:
                raise PreventUpdate
            if not info or no_lsp in info:
                return options_of([no_lsp])
            i = json.loads(info)
            links = model.get_rsvp_lsp(i["source"], i["dest"], i["name"]).path["interfaces"]
            return choice(no_int, self.format_interfaces_for_display(links))

        return app
